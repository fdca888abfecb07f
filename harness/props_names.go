package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
)

func init() {
	register(&Check{ID: "C05", Quick: 6000, Thorough: 60000,
		Rule: "Random and hostile strings and names (all ASCII characters, quotes, backslashes, backticks, line ends, unicode identifiers, reserved words in any letter case, names like keywords) written as literals, labels, types, keys, variables, aliases and parameters in every spelling, among distractors that differ in case, escapes or spaces; what the query read is inspected in the result and in the graph. Integers and floats in all notations are compared with exact arithmetic. Counted: distinct (use, name) and literals.",
		Run:  c05})
}

var hostile = []string{"'", "\"", "`", "``", "\\", "\\\\", "\n", "\r", "\t", "\b", "\f", "\x00", "\x7f", "\\n", "\\u0041", "\\'", "\\\"", "\u00a0", "\u2028", "\u0085", "é", "日", "😀", "𐐀", "\u0301", "/*", "*/", "//", ";", "$", "{", "}", "(", ")", "[", "]", ":", "|", "%s", " ", "  ", "\ufeff", "\ufffd", "'+'", "') RETURN 1 //", "\") DELETE n //", "`) DETACH DELETE n //", "a", "A", "b", "x1", "0", "u0041", "U0001F600", "n", "<", ">", "-", "\u2010", "=", ".", ","}

func hostileString(r *rand.Rand) string {
	switch r.Intn(6) {
	case 0: // all of ASCII, some of it
		n := 1 + r.Intn(12)
		if r.Intn(40) == 0 {
			n = 100 + r.Intn(400)
		}
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteByte(byte(r.Intn(128)))
		}
		return b.String()
	case 1: // any code point
		n := 1 + r.Intn(5)
		var b strings.Builder
		for i := 0; i < n; i++ {
			c := rune(r.Intn(0x110000))
			if r.Intn(2) == 0 {
				c = rune(r.Intn(0x3000))
			}
			if c >= 0xd800 && c < 0xe000 {
				c = 'x'
			}
			b.WriteRune(c)
		}
		return b.String()
	case 2:
		return hostile[r.Intn(len(hostile))]
	}
	var b strings.Builder
	cnt, _ := many(r, 1+r.Intn(5))
	for n := cnt; n > 0; n-- {
		b.WriteString(hostile[r.Intn(len(hostile))])
	}
	return b.String()
}

var schemaReserved = strings.Fields(`ALL ASC ASCENDING BY CREATE DELETE DESC DESCENDING DETACH EXISTS LIMIT MATCH MERGE ON OPTIONAL ORDER REMOVE RETURN SET SKIP WHERE WITH UNION UNWIND AND AS CONTAINS DISTINCT ENDS IN IS NOT OR STARTS XOR FALSE TRUE NULL CONSTRAINT DO FOR REQUIRE UNIQUE CASE WHEN THEN ELSE END MANDATORY SCALAR OF ADD DROP`)

var symbolic = strings.Fields(`COUNT FILTER EXTRACT ANY NONE SINGLE A B C D E F a b c d e f g Z _ __ _1 a1 e5 E5 x0 matches returned inn nulls truex NOTx andy orx asx label Name NAME nAmE type id size count_ é ß λ Ж 名前 שם اسم 한글 𐐀b Ⅷ ‿a ⁀ ﹍x ＿y a$ a€b x¢ n£`)

var identStart = []rune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_éßλЖ名שا한𐐀Ⅷ‿⁀")
var identPart = []rune("0123456789$€¢\u0301\u0660\u00b7")

func randCase(r *rand.Rand, s string) string {
	b := []byte(s)
	for i := range b {
		if r.Intn(2) == 0 {
			b[i] = strings.ToLower(string(b[i]))[0]
		}
	}
	return string(b)
}

// genName makes a name and a way to write it. schema: the name is a
// label, type or key
func genName(r *rand.Rand, schema bool) (string, string) {
	esc := func(s string) string {
		inStep()
		if r.Intn(2) == 0 {
			return oc.EscapeLabelLiteral(s)
		}
		return oc.EscapePropertyKeyLiteral(s)
	}
	switch r.Intn(5) {
	case 0, 1:
		s := hostileString(r)
		return s, esc(s)
	case 2:
		s := symbolic[r.Intn(len(symbolic))]
		if s == strings.ToUpper(s) && len(s) > 2 && s[0] < 0x80 {
			s = randCase(r, s)
		}
		if r.Intn(6) == 0 {
			return s, esc(s)
		}
		return s, s
	case 3:
		s := randCase(r, schemaReserved[r.Intn(len(schemaReserved))])
		if schema && r.Intn(5) > 0 {
			return s, s
		}
		return s, esc(s)
	}
	n, large := many(r, r.Intn(5))
	if large {
		n += r.Intn(200)
	}
	s := string(identStart[r.Intn(len(identStart))])
	for i := 0; i < n; i++ {
		if r.Intn(2) == 0 {
			s += string(identPart[r.Intn(len(identPart))])
		} else {
			s += string(identStart[r.Intn(len(identStart))])
		}
	}
	if reservedWords[strings.ToUpper(s)] {
		return s, esc(s)
	}
	return s, s
}

// near returns names that a wrong reading of the name might give
func near(s string) []string {
	cs := []string{strings.ToLower(s), strings.ToUpper(s), strings.TrimSpace(s), s + " ", " " + s, "`" + s + "`", strings.ReplaceAll(s, "`", "``"), strings.ReplaceAll(s, "``", "`"), strings.ReplaceAll(s, "`", ""), strings.ReplaceAll(s, "\\", "\\\\"), strings.ReplaceAll(s, "\\\\", "\\"), strings.ReplaceAll(s, "\\", ""), s + s, s + "x", strings.ReplaceAll(s, " ", "")}
	if u, err := strconv.Unquote(`"` + s + `"`); err == nil {
		cs = append(cs, u)
	}
	seen := map[string]bool{s: true, "": true}
	var out []string
	for _, c := range cs {
		if !seen[c] {
			seen[c] = true
			out = append(out, c)
		}
	}
	return out
}

func c05(t *T) {
	switch t.rng.Intn(7) {
	case 0:
		c05Strings(t)
	case 1:
		c05Numbers(t)
	case 2:
		c05Label(t)
	case 3:
		c05Key(t)
	case 4:
		c05Type(t)
	case 5:
		c05Vars(t)
	case 6:
		c05Params(t)
	}
}

// c05Expect runs a query and compares the canonical rows
func c05Expect(t *T, ctx *oc.EvalContext, real *RealGraph, text string, cols []string, rows []map[string]V) bool {
	t.Eval(1)
	o := runText(text, ctx)
	o.canonRows(real)
	if o.Panic != "" || o.Err != nil {
		t.Violate("query: %q: %s", text, o)
		return false
	}
	if cols != nil && strings.Join(cols, "\x00") != strings.Join(o.Cols, "\x00") {
		t.Violate("query: %q: columns %q expected, got %q", text, cols, o.Cols)
		return false
	}
	var want []string
	for _, row := range rows {
		want = append(want, modelRow(row, nil))
	}
	if d := diffBags(want, o.Rows, "row"); d != "" {
		t.Violate("query: %q: %s", text, d)
		return false
	}
	return true
}

func c05Strings(t *T) {
	r := t.rng
	real := NewMGraph().build()
	var texts []string
	row := map[string]V{}
	n := 4 + r.Intn(10)
	for i := 0; i < n; i++ {
		s := hostileString(r)
		inStep()
		text := oc.EscapeStringLiteral(s)
		if r.Intn(2) == 0 {
			text = stringText(s, r)
		}
		switch r.Intn(8) {
		case 0:
			text = "[" + text + "][0]"
		case 1:
			text = "{a:" + text + "}.a"
		case 2:
			text = text + "+''"
		}
		texts = append(texts, text)
		row[strconv.Itoa(i+1)] = s
		t.Sig("string " + text)
	}
	if !c05Expect(t, oc.NewEvalContext(real.g), real, "RETURN "+strings.Join(texts, ", "), nil, []map[string]V{row}) {
		return
	}
	// the string as data: only the node that has it is found
	s := hostileString(r)
	g := NewMGraph()
	g.addNode(nil, map[string]V{"s": s, "id": 0})
	for i, x := range near(s) {
		g.addNode(nil, map[string]V{"s": x, "id": i + 1})
	}
	real = g.build()
	want := []map[string]V{{"1": 0}}
	inStep()
	e := oc.EscapeStringLiteral(s)
	if r.Intn(2) == 0 {
		e = stringText(s, r)
	}
	c05Expect(t, oc.NewEvalContext(real.g), real, "MATCH (n {s:"+e+"}) RETURN n.id", nil, want)
	c05Expect(t, oc.NewEvalContext(real.g), real, "MATCH (n) WHERE n.s="+e+" RETURN n.id", nil, want)
	c05Expect(t, oc.NewEvalContext(real.g), real, "CREATE (n {s:"+e+"})", nil, nil)
	n = 0
	real.eachNode(func(nd *lpg.Node) bool {
		if v, ok := nd.GetProperty("s"); ok && v == interface{}(s) {
			n++
		}
		return true
	})
	if n != 2 {
		t.Violate("CREATE (n {s:%s}) did not store %q", e, s)
	}
	t.Sig("stored " + e)
	t.Event("strings")
}

func c05Numbers(t *T) {
	r := t.rng
	real := NewMGraph().build()
	var texts []string
	row := map[string]V{}
	digits := func(n int, set string) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = set[r.Intn(len(set))]
		}
		return string(b)
	}
	const dec = "0123456789"
	for i := 0; i < 14; i++ {
		var text string
		var v V
		big63 := new(big.Int).Lsh(big.NewInt(1), 63)
		integer := func(s string, base int) bool {
			x, ok := new(big.Int).SetString(s, base)
			if !ok || x.Cmp(big63) >= 0 {
				return false
			}
			v = int(x.Int64())
			return true
		}
		float := func(s string) bool {
			x, ok := new(big.Rat).SetString(s)
			if !ok {
				return false
			}
			f, _ := x.Float64()
			if f > 1e308 {
				return false
			}
			v = f
			return true
		}
		ok := false
		switch r.Intn(8) {
		case 0:
			text = digits(1, dec[1:]) + digits(r.Intn(19), dec)
			ok = integer(text, 10)
		case 1:
			h := digits(1+r.Intn(16), "0123456789abcdefABCDEF")
			text = "0x" + h
			ok = integer(h, 16)
		case 2:
			o := digits(1+r.Intn(21), "01234567")
			text = "0" + o
			ok = integer(o, 8)
		case 3:
			text = digits(r.Intn(6), dec) + "." + digits(1+r.Intn(18), dec)
			ok = float(text)
		case 4:
			text = digits(1+r.Intn(5), dec) + []string{"e", "E"}[r.Intn(2)] + []string{"", "-"}[r.Intn(2)] + digits(1+r.Intn(2), dec)
			ok = float(text)
		case 5:
			text = digits(r.Intn(4), dec) + "." + digits(1+r.Intn(5), dec) + []string{"e", "E"}[r.Intn(2)] + []string{"", "-"}[r.Intn(2)] + digits(1+r.Intn(3), dec)
			ok = float(text)
		case 6:
			text = []string{"0", "9223372036854775807", "0x7fffffffffffffff", "0777777777777777777777", "0x0", "00", "0.0", ".0", "0e0", "0x000000000000000000001", "1e308", "1.7976931348623157E308", "4.9e-324", "5e-324", "2.2250738585072014e-308", "1e-400", "9007199254740993.0", "9007199254740992.9", "0.1", "123456789012345678901234567890.0", "0xAbCdEf", "010", "0x10", "10"}[r.Intn(24)]
			switch {
			case strings.HasPrefix(text, "0x"):
				ok = integer(text[2:], 16)
			case strings.ContainsAny(text, ".eE"):
				ok = float(text)
			case len(text) > 1 && text[0] == '0':
				ok = integer(text, 8)
			default:
				ok = integer(text, 10)
			}
		case 7:
			x := []struct {
				s string
				v V
			}{{"true", true}, {"FALSE", false}, {"True", true}, {"fAlse", false}, {"null", nil}, {"NULL", nil}, {"Null", nil}, {"[]", List{}}, {"{}", Map{}}, {"''", ""}, {`""`, ""}}
			k := r.Intn(len(x))
			text, v, ok = x[k].s, x[k].v, true
		}
		if !ok {
			continue
		}
		t.Sig("literal " + text)
		if r.Intn(6) == 0 {
			switch x := v.(type) {
			case int:
				text, v = "-"+text, -x
			case float64:
				if x != 0 {
					text, v = "- "+text, -x
				}
			}
		}
		texts = append(texts, text)
		row[strconv.Itoa(len(texts))] = v
	}
	if len(texts) == 0 {
		t.Skip()
		return
	}
	c05Expect(t, oc.NewEvalContext(real.g), real, "RETURN "+strings.Join(texts, ", "), nil, []map[string]V{row})
	t.Event("numbers")
	// out of range
	if r.Intn(3) != 0 {
		return
	}
	nz := func(set string) string { return digits(1, set[1:]) }
	var text string
	switch r.Intn(6) {
	case 0:
		text = nz(dec) + digits(19+r.Intn(30), dec)
	case 1:
		text = "0x" + strings.Repeat("0", r.Intn(3)) + nz("0123456789abcdefABCDEF") + digits(16+r.Intn(20), "0123456789abcdefABCDEF")
	case 2:
		text = "0" + strings.Repeat("0", r.Intn(3)) + nz("01234567") + digits(21+r.Intn(20), "01234567")
	case 3:
		text = nz(dec) + "." + digits(r.Intn(3)+1, dec) + "e" + strconv.Itoa(309+r.Intn(1000))
	case 4:
		text = nz(dec) + digits(309+r.Intn(100), dec) + ".5"
	case 5:
		text = []string{"9223372036854775809", "0x8000000000000001", "01000000000000000000001", "18446744073709551616", "18446744073709551615", "0xffffffffffffffff", "01777777777777777777777", "0x10000000000000000", "1e309", "1.8e308", "1.7976931348623159E308", "123456789e301", "1e99999999999"}[r.Intn(13)]
	}
	t.Sig("out of range " + text)
	for _, q := range []string{"RETURN " + text, "RETURN [1, " + text + "]", "MATCH (n {a: " + text + "}) RETURN n", "RETURN 1 LIMIT " + text} {
		t.Eval(1)
		if o := runText(q, oc.NewEvalContext(real.g)); o.Panic != "" || o.Err == nil {
			t.Violate("query: %q: a number out of range must be an error, got %s", q, o)
			return
		}
	}
	t.Event("numbers out of range")
}

func c05Label(t *T) {
	r := t.rng
	s, text := genName(r, true)
	g := NewMGraph()
	g.addNode([]string{s}, map[string]V{"id": 0})
	g.addNode([]string{s, "other"}, map[string]V{"id": 1})
	if s == "other" {
		delete(g.nodes, 1)
	}
	for i, x := range near(s) {
		g.addNode([]string{x}, map[string]V{"id": i + 2})
	}
	g.addNode(nil, map[string]V{"id": 99})
	real := g.build()
	ids := func(set func(map[string]bool) bool) []map[string]V {
		var rows []map[string]V
		for _, n := range g.nodes {
			if set(n.labels) {
				rows = append(rows, map[string]V{"1": n.props["id"]})
			}
		}
		return rows
	}
	has := func(m map[string]bool) bool { return m[s] }
	t.Sig("label " + text)
	t.Event("labels")
	if !c05Expect(t, oc.NewEvalContext(real.g), real, "MATCH (n:"+text+") RETURN n.id", nil, ids(has)) {
		return
	}
	if !c05Expect(t, oc.NewEvalContext(real.g), real, "MATCH (n) WHERE n:"+text+" RETURN n.id", nil, ids(has)) {
		return
	}
	check := func(q string, id int, want []string) {
		t.Eval(1)
		o := runText(q, oc.NewEvalContext(real.g))
		if o.Err != nil || o.Panic != "" {
			t.Violate("query %q: %s", q, o)
			return
		}
		found := false
		real.eachNode(func(n *lpg.Node) bool {
			if v, _ := n.GetProperty("id"); v == interface{}(id) {
				found = true
				var have []string
				for _, l := range n.GetLabels().Slice() {
					have = append(have, l)
				}
				sort.Strings(have)
				sort.Strings(want)
				if strings.Join(have, "\x00") != strings.Join(want, "\x00") {
					t.Violate("query %q: the node has the labels %q, expected %q", q, have, want)
				}
			}
			return true
		})
		if !found {
			t.Violate("query %q: no node with id %d", q, id)
		}
	}
	check("CREATE (:"+text+" {id:100})", 100, []string{s})
	two := []string{s, "q"}
	if s == "q" {
		two = two[:1]
	}
	check("CREATE (:q:"+text+":"+text+" {id:101})", 101, two)
	check("MATCH (n {id:99}) SET n:"+text, 99, []string{s})
	check("MATCH (n {id:0}) REMOVE n:"+text, 0, nil)
	check("MERGE (n:"+text+" {id:102})", 102, []string{s})
}

func c05Key(t *T) {
	r := t.rng
	s, text := genName(r, true)
	if s == "id" {
		s, text = "idd", "idd"
	}
	g := NewMGraph()
	g.addNode(nil, map[string]V{"id": 0, s: 5})
	props := map[string]V{"id": 1}
	for i, x := range near(s) {
		if x != "id" {
			props[x] = i + 10
		}
	}
	g.addNode(nil, props)
	real := g.build()
	t.Sig("key " + text)
	t.Event("keys")
	ok := c05Expect(t, oc.NewEvalContext(real.g), real, "MATCH (n) RETURN n.id, n."+text, nil, []map[string]V{{"1": 0, "2": 5}, {"1": 1, "2": nil}}) &&
		c05Expect(t, oc.NewEvalContext(real.g), real, "MATCH (n {"+text+": 5}) RETURN n.id", nil, []map[string]V{{"1": 0}}) &&
		c05Expect(t, oc.NewEvalContext(real.g), real, "RETURN {"+text+": 1}, {"+text+": 2}."+text+", {zz: {"+text+" :3}}.zz. "+text, nil, []map[string]V{{"1": Map{s: 1}, "2": 2, "3": 3}})
	if !ok {
		return
	}
	check := func(q string, id int, want map[string]interface{}) {
		t.Eval(1)
		o := runText(q, oc.NewEvalContext(real.g))
		if o.Err != nil || o.Panic != "" {
			t.Violate("query %q: %s", q, o)
			return
		}
		found := false
		real.eachNode(func(n *lpg.Node) bool {
			if v, _ := n.GetProperty("id"); v == interface{}(id) {
				found = true
				have := map[string]interface{}{}
				n.ForEachProperty(func(k string, v interface{}) bool {
					have[k] = v
					return true
				})
				if a, b := fmt.Sprintf("%q", have), fmt.Sprintf("%q", want); a != b {
					t.Violate("query %q: the node has %s, expected %s", q, a, b)
				}
			}
			return true
		})
		if !found {
			t.Violate("query %q: no node with id %d", q, id)
		}
	}
	check("CREATE (:X {id:100, "+text+": 7})", 100, map[string]interface{}{"id": 100, s: 7})
	check("MATCH (n {id:100}) SET n."+text+" = 8", 100, map[string]interface{}{"id": 100, s: 8})
	check("MATCH (n {id:100}) REMOVE n."+text, 100, map[string]interface{}{"id": 100})
	check("MATCH (n {id:100}) SET n += {"+text+": 9}", 100, map[string]interface{}{"id": 100, s: 9})
	check("MATCH (n {id:100}) SET n = {id: 100, "+text+": 10}", 100, map[string]interface{}{"id": 100, s: 10})
	check("MERGE (n:M {id:103, "+text+": 1}) ON CREATE SET n."+text+" = 2", 103, map[string]interface{}{"id": 103, s: 2})
}

func c05Type(t *T) {
	r := t.rng
	s, text := genName(r, true)
	g := NewMGraph()
	a := g.addNode(nil, nil)
	b := g.addNode(nil, nil)
	g.addEdge(a.id, b.id, s, map[string]V{"id": 0})
	for i, x := range near(s) {
		g.addEdge(a.id, b.id, x, map[string]V{"id": i + 1})
	}
	real := g.build()
	t.Sig("type " + text)
	t.Event("types")
	ok := c05Expect(t, oc.NewEvalContext(real.g), real, "MATCH (a)-[r:"+text+"]->(b) RETURN r.id, type(r)", nil, []map[string]V{{"1": 0, "2": s}}) &&
		c05Expect(t, oc.NewEvalContext(real.g), real, "MATCH ()-[r:none_such|:"+text+"]-() RETURN DISTINCT r.id", nil, []map[string]V{{"1": 0}}) &&
		c05Expect(t, oc.NewEvalContext(real.g), real, "CREATE (:P)-[r:"+text+" {id:100}]->(:Q) RETURN type(r)", nil, []map[string]V{{"1": s}})
	if !ok {
		return
	}
	n := 0
	real.eachEdge(func(e *lpg.Edge) bool {
		if v, _ := e.GetProperty("id"); v == interface{}(100) {
			n++
			if e.GetLabel() != s {
				t.Violate("CREATE ()-[:%s]->(): the type is %q", text, e.GetLabel())
			}
		}
		return true
	})
	if n != 1 {
		t.Violate("CREATE ()-[:%s]->(): %d relationships", text, n)
	}
}

func digitFirst(s string) bool { return s[0] >= '0' && s[0] <= '9' }

// c05Vars: names of variables and aliases
func c05Vars(t *T) {
	r := t.rng
	var names, texts []string
	seen := map[string]bool{}
	want := 2 + r.Intn(4)
	for len(names) < want {
		s, text := genName(r, false)
		if seen[s] || s == "" || digitFirst(s) {
			continue
		}
		if r.Intn(2) == 0 {
			for _, n := range near(s) {
				if !seen[n] && n != "" && !digitFirst(n) && r.Intn(3) == 0 {
					seen[n] = true
					names = append(names, n)
					texts = append(texts, oc.EscapeLabelLiteral(n))
				}
			}
		}
		seen[s] = true
		names = append(names, s)
		texts = append(texts, text)
	}
	if len(names) > 7 {
		names, texts = names[:7], texts[:7]
	}
	t.Sig("variables " + strings.Join(texts, " "))
	t.Event("variables")
	// aliases
	var items []string
	row := map[string]V{}
	for i, x := range texts {
		items = append(items, strconv.Itoa(i)+" AS "+x)
		row[names[i]] = i
	}
	real := NewMGraph().build()
	if !c05Expect(t, oc.NewEvalContext(real.g), real, "RETURN "+strings.Join(items, ", "), names, []map[string]V{row}) {
		return
	}
	// variables of patterns
	var parts, rets []string
	res := map[string]V{}
	for i, x := range texts {
		parts = append(parts, "("+x+" {id:"+strconv.Itoa(i)+"})")
		rets = append(rets, x+".id")
		res[strconv.Itoa(i+1)] = i
	}
	ctx := oc.NewEvalContext(real.g)
	if !c05Expect(t, ctx, real, "CREATE "+strings.Join(parts, ", ")+" RETURN "+strings.Join(rets, ", "), nil, []map[string]V{res}) {
		return
	}
	// they are exported to the context by exactly these names
	for i, n := range names {
		v, err := ctx.GetVar(n)
		if err != nil {
			t.Violate("CREATE (%s): GetVar(%q): %v", texts[i], n, err)
			return
		}
		nd, ok := v.Get().(*lpg.Node)
		if !ok {
			t.Violate("CREATE (%s): GetVar(%q) is a %T", texts[i], n, v.Get())
			return
		}
		if p, _ := nd.GetProperty("id"); p != interface{}(i) {
			t.Violate("CREATE (%s): GetVar(%q) is the wrong node", texts[i], n)
			return
		}
	}
	if !c05Expect(t, oc.NewEvalContext(real.g), real, "MATCH "+strings.Join(parts, ", ")+" RETURN "+strings.Join(rets, ", "), nil, []map[string]V{res}) {
		return
	}
	// variables of the context
	ctx = oc.NewEvalContext(real.g)
	res = map[string]V{}
	for i, n := range names {
		ctx.SetVar(n, oc.ValueOf(i+50))
		res[strconv.Itoa(i+1)] = i + 50
	}
	c05Expect(t, ctx, real, "RETURN "+strings.Join(texts, ", "), nil, []map[string]V{res})
}

func c05Params(t *T) {
	r := t.rng
	var names, texts []string
	seen := map[string]bool{}
	ctx := oc.NewEvalContext(lpg.NewGraph())
	row := map[string]V{}
	for i := 0; i < 2+r.Intn(4); i++ {
		s, text := genName(r, false)
		if r.Intn(5) == 0 {
			s = []string{"0", "1", "12", "907", "2147483648", "18446744073709551616"}[r.Intn(6)]
			text = s
		}
		if seen[s] || s == "" {
			continue
		}
		seen[s] = true
		for _, n := range near(s) {
			if !seen[n] && n != "" {
				ctx.SetParameter("$"+n, oc.ValueOf(-1))
			}
		}
		names = append(names, s)
		texts = append(texts, "$"+text)
	}
	for i, n := range names {
		ctx.SetParameter("$"+n, oc.ValueOf(i))
		row[strconv.Itoa(i+1)] = i
	}
	t.Sig("parameters " + strings.Join(texts, " "))
	t.Event("parameters")
	real := NewMGraph().build()
	c05Expect(t, ctx, real, "RETURN "+strings.Join(texts, ", "), nil, []map[string]V{row})
}

func (r *RealGraph) eachNode(f func(*lpg.Node) bool) {
	for it := r.g.GetNodes(); it.Next(); {
		if !f(it.Node()) {
			return
		}
	}
}

func (r *RealGraph) eachEdge(f func(*lpg.Edge) bool) {
	for it := r.g.GetEdges(); it.Next(); {
		if !f(it.Edge()) {
			return
		}
	}
}
