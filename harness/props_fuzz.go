package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
)

func init() {
	register(&Check{ID: "C06", Quick: 13500, Thorough: 300000,
		Rule:   "Valid queries with 0-4 token or character mutations, random sentences of the grammar (also of its unsupported parts), truncations, stray and unbalanced tokens, expressions with operands of wrong types, and pattern expressions, evaluated on small graphs with parameters of all kinds. Monitors: Go panics, processor time and memory per case; an independent recognizer of the grammar decides which texts are no queries: those must be errors and leave graph and context as they were. Counted: distinct texts.",
		Run:    c06,
		Pinned: c06Pinned})
}

var vocabulary = strings.Fields("MATCH OPTIONAL WHERE RETURN DISTINCT CREATE MERGE SET REMOVE DELETE DETACH ON AS ORDER BY SKIP LIMIT ASC DESC UNION ALL AND OR XOR NOT IN IS NULL TRUE FALSE CASE WHEN THEN ELSE END STARTS ENDS CONTAINS WITH UNWIND CALL YIELD EXISTS COUNT ANY NONE SINGLE FILTER EXTRACT ( ) [ ] { } , ; : . .. | + - * / % ^ = <> < <= > >= += $ $p0 $p1 $none n m a b r x 0 1 2 -1 1.5 .5 0x1F 017 1e3 9223372036854775807 99999999999999999999 1e999 'a' \"b\" '' `q` `` # @ ~ ? ! & \\ ' \" ` size( range( left( substring( date( toInteger( labels( type( nosuch( n.x n:A (n) ()-[]->() -[r]-> <-- --> -- *1..2 *.. [*0] $1")

// heavy: texts that take long for a good reason
var bigNumber = regexp.MustCompile(`[0-9]{3}|[0-9][eExX]|\^|\*`)

func heavy(text string) bool {
	if strings.Count(text, "(") > 14 || strings.Count(text, "[") > 14 || strings.Count(text, "{") > 16 || len(text) > 1500 {
		return true
	}
	if strings.Count(strings.ToUpper(text), "CASE") > 8 {
		return true
	}
	return strings.Contains(strings.ToLower(text), "range") && bigNumber.MatchString(text)
}

// queryTokens are the texts of the tokens of a query, with spaces
// between them
func queryTokens(q Query, rng *rand.Rand) []string {
	p := &Printer{rng: rng}
	p.query(q)
	var out []string
	for _, t := range p.toks {
		out = append(out, t.Text)
	}
	return out
}

// join puts spaces between tokens, except where the query had none
func joinToks(toks []string) string { return strings.Join(toks, " ") }

func (t *T) mutate(toks []string) []string {
	r := t.rng
	toks = append([]string{}, toks...)
	for n := r.Intn(4); n > 0; n-- {
		if len(toks) == 0 {
			break
		}
		i := r.Intn(len(toks))
		switch r.Intn(8) {
		case 0:
			toks = append(toks[:i], toks[i+1:]...)
		case 1:
			toks = append(toks[:i+1], toks[i:]...)
		case 2:
			j := r.Intn(len(toks))
			toks[i], toks[j] = toks[j], toks[i]
		case 3:
			toks[i] = vocabulary[r.Intn(len(vocabulary))]
		case 4, 5:
			rest := append([]string{vocabulary[r.Intn(len(vocabulary))]}, toks[i:]...)
			toks = append(toks[:i], rest...)
		case 6:
			toks = toks[:i]
		case 7:
			j := i + r.Intn(len(toks)-i)
			seg := append([]string{}, toks[i:j]...)
			k := r.Intn(len(toks))
			if len(seg) < 12 {
				rest := append(seg, toks[k:]...)
				toks = append(append([]string{}, toks[:k]...), rest...)
			}
		}
	}
	return toks
}

func mutateBytes(r *rand.Rand, s string) string {
	b := []rune(s)
	const set = "()[]{}<>-:;.,|$'\"`\\/*+=%^!?#@~& \n\t0123456789abcxnmrAEXSTé\u2028"
	rs := []rune(set)
	for n := 1 + r.Intn(3); n > 0; n-- {
		if len(b) == 0 {
			break
		}
		i := r.Intn(len(b))
		switch r.Intn(4) {
		case 0:
			b = append(b[:i], b[i+1:]...)
		case 1:
			b[i] = rs[r.Intn(len(rs))]
		case 2:
			b = append(b[:i], append([]rune{rs[r.Intn(len(rs))]}, b[i:]...)...)
		case 3:
			b = b[:i]
		}
	}
	return string(b)
}

// hostileExpr writes an expression that applies functions and operators
// to values of any kind
func hostileExpr(r *rand.Rand, d int) string {
	sub := func() string { return hostileExpr(r, d-1-r.Intn(2)) }
	if d <= 0 {
		leaves := []string{"null", "0", "1", "-1", "2", "9223372036854775807", "-9223372036854775807", "1.5", "0.0", "-2.5", "1e300", "'a'", "''", "'2020-01-31'", "'12'", "'日本'", "true", "false", "[]", "[1,2]", "['a',null]", "[[1],{a:1}]", "{}", "{a:1}", "{year:2020,month:1}", "{timezone:'UTC'}", "{timezone:1}", "{year:'x'}", "n", "r", "m", "p", "n.x", "n.l", "n.name", "r.x", "nosuch", "labels(n)", "type(r)", "date('2020-02-28')", "$p0", "$p1", "$p2", "$p3", "$p4", "$p5", "n", "r", "p", "$p0", "$p1"}
		return leaves[r.Intn(len(leaves))]
	}
	args := func(n int) string {
		var a []string
		for ; n > 0; n-- {
			a = append(a, sub())
		}
		return strings.Join(a, ", ")
	}
	switch r.Intn(20) {
	case 0, 1, 2, 3, 4, 5, 6:
		f := funcNames[r.Intn(len(funcNames))]
		n := 1 + r.Intn(2)
		switch f {
		case "range":
			// small ranges only
			return fmt.Sprintf("range(%s, %s)", []string{"0", "null", "'a'", "1.5", "[]", "n"}[r.Intn(6)], []string{"3", "null", "'a'", "1.5", "{}", "r", "true"}[r.Intn(7)])
		case "substring", "parseDate", "left", "right", "split":
			n = 2 + r.Intn(2)
		}
		if r.Intn(12) == 0 {
			n = r.Intn(5)
		}
		return f + "(" + args(n) + ")"
	case 7, 8:
		return sub() + []string{" + ", " - ", " * ", " / ", " % ", " ^ "}[r.Intn(6)] + sub()
	case 9:
		return sub() + " " + cmpOps[r.Intn(6)] + " " + sub()
	case 10:
		return sub() + []string{" AND ", " OR ", " XOR "}[r.Intn(3)] + sub()
	case 11:
		return sub() + []string{" IN ", " STARTS WITH ", " ENDS WITH ", " CONTAINS "}[r.Intn(4)] + sub()
	case 12:
		return "(" + sub() + ")[" + sub() + "]"
	case 13:
		return "(" + sub() + ")[" + []string{"", sub()}[r.Intn(2)] + ".." + []string{"", sub()}[r.Intn(2)] + "]"
	case 14:
		return "(" + sub() + ")" + []string{".x", ".year", ".a", ":A", ":A:B", ".x.y", "[0].x", ":A.x"}[r.Intn(8)]
	case 15:
		return []string{"-", "+", "NOT "}[r.Intn(3)] + "(" + sub() + ")"
	case 16:
		return "(" + sub() + []string{" IS NULL", " IS NOT NULL"}[r.Intn(2)] + ")"
	case 17:
		return "[" + args(r.Intn(4)) + "]"
	case 18:
		return "{a: " + sub() + ", b: " + sub() + "}"
	}
	if r.Intn(2) == 0 {
		return "CASE WHEN " + sub() + " THEN " + sub() + " ELSE " + sub() + " END"
	}
	return "CASE " + sub() + " WHEN " + sub() + " THEN " + sub() + " END"
}

var exprPlaces = []string{
	"MATCH (n)-[r]-(m) RETURN %s", "MATCH (n)-[p*1..2]->(m) RETURN %s", "OPTIONAL MATCH (n:Nosuch)-[r]->(m) RETURN %s", "MATCH (n)-[r]->(m) RETURN DISTINCT %s", "MATCH (n)-[r]->(m) RETURN n ORDER BY %s DESC", "RETURN %s",
	"MATCH (n)-[r]-() WHERE %s RETURN n", "MATCH (n)-[p*]-() WHERE %s RETURN n", "MATCH (n)-[r]->() SET n.q = %s RETURN n.q", "MATCH (n)-[p*1..3]->() SET n = %s", "MATCH (n)-[r]->() SET n += %s", "MATCH (n)-[r]->(m) SET r.x = %s", "RETURN 1 SKIP %s", "MATCH (n) RETURN n LIMIT %s",
	"CREATE (n {q: %s}) RETURN n.q", "MATCH (n)-[r]->() CREATE (n)-[:R {a: %s}]->({b: %[1]s})", "MATCH (n)-[r]->() DELETE %s", "MATCH (n)-[p*]->() DETACH DELETE %s", "MERGE (n:A {x: %s}) ON CREATE SET n.y = %[1]s ON MATCH SET n.z = %[1]s", "MATCH (n {x: %s}) RETURN n", "MATCH (n)-[r {x: %s}]->() RETURN n", "MATCH (n)-[r]->(m) SET (%s).x = 1", "MATCH (n)-[r]->(m) REMOVE (%s).x",
	"CREATE (n:A $p0) RETURN n.x", "MATCH (n:A $p1) RETURN n", "MATCH (n)-[r $p2]->(m $p3) RETURN r", "MERGE (n:A $p4) RETURN n", "MATCH (n) CREATE (n)-[:R $p5]->(:B $p0)", "MATCH (n) MERGE (n)-[r:R $p1]->(m:B $p2)", "MATCH (n) SET n = $p3", "MATCH (n) SET n += $p4 RETURN n", "MATCH (n) OPTIONAL MATCH (n)-[r:R|S $p5]-(m) RETURN n", "MATCH (n) DELETE $p0", "RETURN $p1 ORDER BY $p2 SKIP $p3 LIMIT $p4",
	"MATCH (n)-[r]->(m) RETURN 1 UNION RETURN %s", "MATCH (n)-[r]-(m) RETURN %s UNION MATCH (n)-[p*]-(m)-[r]-() RETURN %[1]s", "MATCH (n)-[r]-(m) RETURN %s AS a, %[1]s AS b ORDER BY a, b", "UNWIND %s AS x RETURN x", "MATCH (n)-[r]->(m) OPTIONAL MATCH (m {x: %s})-[]->() RETURN n",
}

var funcNames = strings.Fields("range size left right substring trim ltrim rTrim split toInteger toFloat toIntegerOrNull toFloatOrNull labels type date timestamp parseDate nosuch length count duration localtime")

func terminal(r *rand.Rand, vars []string) func(string) string {
	one := func(s ...string) string { return s[r.Intn(len(s))] }
	return func(kind string) string {
		switch kind {
		case "SP":
			return " "
		case "oC_FunctionName":
			return one(funcNames...)
		case "oC_SchemaName":
			return one("A", "B", "x", "y", "name", "R", "S", "l", "f")
		case "oC_SymbolicName":
			return one(vars...)
		case "oC_StandaloneCall":
			if r.Intn(10) > 0 {
				return "RETURN 1"
			}
			return ""
		case "oC_ProcedureName":
			return one("range", "nosuch")
		case "UnescapedSymbolicName", "EscapedSymbolicName":
			return one(vars...)
		case "StringLiteral":
			return one("'a'", `"b"`, "''", "'2020-01-31'", "'12'", "'x y'")
		case "HexInteger":
			return one("0x0", "0x7f", "0xA")
		case "DecimalInteger":
			return one("0", "1", "2", "3", "10", "9223372036854775807")
		case "OctalInteger":
			return one("00", "07", "010")
		case "ExponentDecimalReal":
			return one("1e1", ".5e-1", "1.5E2", "1e308", "1e400")
		case "RegularDecimalReal":
			return one("1.5", ".5", "0.0", "2.0")
		case "HexLetter":
			return one("a", "b", "A")
		case "L_SKIP":
			return "SKIP"
		}
		return kind
	}
}

func anyParam(r *rand.Rand, g *lpg.Graph) oc.Value {
	switch r.Intn(22) {
	case 0:
		return oc.ValueOf(nil)
	case 1:
		return oc.ValueOf([]string{"a", "b"})
	case 2:
		return oc.ValueOf([]interface{}{1, "a", nil, []interface{}{2}})
	case 3:
		return oc.ValueOf(map[string]interface{}{"x": 1, "name": "a", "l": []interface{}{1}})
	case 4:
		return oc.ValueOf(map[string]interface{}{})
	case 5:
		return oc.RValue{Value: []oc.Value{}}
	case 6:
		return oc.ValueOf(1.5)
	case 7:
		return oc.ValueOf(-1)
	case 8:
		return oc.ValueOf("a")
	case 9:
		return oc.ValueOf(true)
	case 10:
		return oc.ValueOf(uint8(3))
	case 11:
		return oc.ValueOf(goTemporal(RDate{2020, 1, 31}))
	case 12:
		return oc.ValueOf(goTemporal(RLT{3600e9}))
	case 13:
		return oc.ValueOf(goTemporal(RDur{1, 2, 3, 4}))
	case 14:
		return oc.RValue{Value: lpg.NewStringSet("A", "B")}
	case 15:
		if it := g.GetNodes(); it.Next() {
			return oc.ValueOf(it.Node())
		}
	case 16:
		if it := g.GetEdges(); it.Next() {
			return oc.RValue{Value: it.Edge()}
		}
	case 17:
		if it := g.GetEdges(); it.Next() {
			return oc.RValue{Value: lpg.NewPathFromElements(lpg.NewPathElementsFromEdges([]*lpg.Edge{it.Edge()})...)}
		}
	case 18:
		if it := g.GetEdges(); it.Next() {
			return oc.RValue{Value: []*lpg.Edge{it.Edge()}}
		}
	case 19:
		return oc.RValue{Value: *oc.NewResultSet()}
	case 20:
		return oc.RValue{Value: struct{ X int }{1}}
	case 21:
		return oc.NewLValue(oc.RValue{Value: 5})
	}
	return oc.ValueOf(r.Intn(5))
}

func c06(t *T) {
	r := t.rng
	if r.Intn(9) == 0 {
		c06Pattern(t)
		return
	}
	gg := GraphGen{rng: r, nMin: 0, nMax: 3, eMax: 3, loops: true, wide: true}
	q := NewQGen(r, gg.gen())
	q.wide = true
	q.maxRels = 1 + r.Intn(2)
	q.maxParts = 2
	q.pVarLen = 20
	var text string
	kind := ""
	must := false // the text is not a query
	tokens := func() []string {
		qq := Query{Singles: []Single{q.any()}}
		if r.Intn(6) == 0 {
			qq.Singles = append(qq.Singles, q.any())
			qq.All = []bool{r.Intn(2) == 0}
		}
		var lit *rand.Rand
		if r.Intn(2) == 0 {
			lit = r
		}
		return queryTokens(qq, lit)
	}
	switch r.Intn(11) {
	case 8, 9, 10:
		kind = "functions and operators on values of any kind"
		place := exprPlaces[r.Intn(len(exprPlaces))]
		x := hostileExpr(r, 1+r.Intn(3))
		text = strings.ReplaceAll(strings.ReplaceAll(place, "%[1]s", x), "%s", x)
	case 0, 1:
		kind = "mutated tokens"
		text = joinToks(t.mutate(tokens()))
	case 2:
		kind = "mutated characters"
		text = mutateBytes(r, joinToks(tokens()))
	case 3, 4:
		kind = "sentences of the grammar"
		depth := 24 + r.Intn(30)
		text = strings.Join(cypherGrammar.sentence("oC_Cypher", depth, r.Intn, terminal(r, []string{"n", "m", "r", "x", "a"})), "")
	case 5:
		kind = "mutated sentences"
		text = joinToks(t.mutate(cypherGrammar.sentence("oC_Cypher", 24+r.Intn(20), r.Intn, terminal(r, []string{"n", "m", "r", "x", "a"}))))
	case 6:
		kind = "texts that are no query"
		toks := tokens()
		text, must = t.spoil(toks)
	case 7:
		kind = "operands of wrong types"
		e := NewEGen(r)
		for _, k := range sortedKeys(q.params) {
			e.addLeaf(Param{k}, q.params[k])
		}
		e.wrongP = 0.3
		e.nullP = 0.05
		e.bigP = 0.1
		e.nodes = append(e.nodes, Var{"n"})
		e.edges = append(e.edges, Var{"r"})
		x := e.gen(Ty(r.Intn(int(nTypes))), 1+r.Intn(4))
		p := &Printer{}
		p.expr(x, lvOr)
		s := Style{}.text(p.toks)
		text = []string{"MATCH (n)-[r]-() RETURN %s", "MATCH (n) OPTIONAL MATCH (n)-[r]->(m) RETURN n ORDER BY %s", "RETURN %s", "MATCH (n)-[r]-() WHERE %s RETURN n", "MATCH (n) SET n.q = %s", "MATCH (n)-[r]->() SET n = %s", "MATCH (n) SET n += %s", "RETURN 1 SKIP %s", "RETURN 1 LIMIT %s", "CREATE (n {q: %s})", "MATCH (n)-[r]->() DELETE %s", "MERGE (n:A {x: %s})", "MATCH (n {x: %s}) RETURN n", "MATCH (n) RETURN DISTINCT %s", "RETURN 1 UNION RETURN %s"}[r.Intn(15)]
		text = strings.Replace(text, "%s", s, 1)
	}
	if heavy(text) {
		t.Skip()
		return
	}
	real := q.g.build()
	ctx := oc.NewEvalContext(real.g)
	for i := 0; i < 6; i++ {
		ctx.SetParameter("$p"+strconv.Itoa(i), anyParam(r, real.g))
	}
	for _, k := range sortedKeys(q.params) {
		v := q.params[k]
		if r.Intn(4) == 0 {
			ctx.SetParameter("$"+k, anyParam(r, real.g))
		} else {
			ctx.SetParameter("$"+k, toValue(v, real))
		}
	}
	if r.Intn(4) == 0 {
		ctx.SetVar("n", anyParam(r, real.g))
	}
	if r.Intn(6) == 0 {
		ctx.SetVar("m", anyParam(r, real.g))
	}
	before := real.rawText()
	varsBefore := ctxText(ctx, real)
	is, known := cypherGrammar.isQuery(text)
	if must && is && known {
		panic("harness: the recognizer accepts " + text)
	}
	t.Eval(1)
	t.Event(kind)
	var parsed oc.Evaluatable
	var perr error
	if p := protect(func() { parsed, perr = oc.Parse(text) }); p != "" {
		t.Violate("Parse panics: %s\ntext: %q", p, text)
		return
	}
	_ = parsed
	if known && !is && perr == nil {
		t.Violate("Parse accepts a text that is not a query: %q", text)
		return
	}
	o := &Obs{}
	inStep()
	o.Panic = protect(func() { o.Val, o.Err = oc.ParseAndEvaluate(text, ctx) })
	if o.Panic != "" {
		if strings.Contains(o.Panic, "disconnected from path") && strings.Contains(text, "*") {
			t.Event("known: path with two variable-length relationships")
			t.Skip()
			return
		}
		t.Violate("panic: %s\ntext: %q\ngraph: %s\ncontext: %s", o.Panic, text, q.g, varsBefore)
		return
	}
	if o.Err == nil && o.Val == nil {
		t.Violate("neither a value nor an error\ntext: %q", text)
		return
	}
	if perr != nil || (known && !is) {
		if o.Err == nil {
			t.Violate("ParseAndEvaluate gives a value, although Parse fails (%v)\ntext: %q", perr, text)
			return
		}
		if a := real.rawText(); a != before {
			t.Violate("a text that is not a query changed the graph\ntext: %q\nbefore: %s\nafter: %s", text, before, a)
			return
		}
		if a := ctxText(ctx, real); a != varsBefore {
			t.Violate("a text that is not a query changed the context\ntext: %q\nbefore: %s\nafter: %s", text, varsBefore, a)
			return
		}
		t.Event("rejected by the parser")
	} else if o.Err != nil {
		t.Event("errors of the evaluation")
	} else {
		t.Event("values")
	}
	t.Sig(text)
}

func ctxText(ctx *oc.EvalContext, real *RealGraph) string {
	var out []string
	for k, v := range ctx.GetVarsNearestScope() {
		s := ""
		if p := protect(func() { s = rawValue(v.Get(), real) }); p != "" {
			s = fmt.Sprintf("%T", v.Get())
		}
		out = append(out, k+"="+s)
	}
	sortStrings(out)
	return strings.Join(out, " ")
}

// spoil makes a text that is certainly not a query
func (t *T) spoil(toks []string) (string, bool) {
	r := t.rng
	brackets := func() []int {
		var out []int
		for i, x := range toks {
			if len(x) == 1 && strings.Contains("()[]{}", x) {
				out = append(out, i)
			}
		}
		return out
	}
	insert := func(i int, s string) string {
		x := append([]string{}, toks[:i]...)
		x = append(x, s)
		x = append(x, toks[i:]...)
		return joinToks(x)
	}
	switch r.Intn(7) {
	case 0:
		return insert(r.Intn(len(toks)+1), []string{"#", "@", "~", "?", "!", "&", "\\", "\x01", "\x00", "§", "\\n"}[r.Intn(11)]), true
	case 1:
		return insert(r.Intn(len(toks)+1), []string{"(", ")", "[", "]", "{", "}"}[r.Intn(6)]), true
	case 2:
		if bs := brackets(); len(bs) > 0 {
			i := bs[r.Intn(len(bs))]
			return joinToks(append(append([]string{}, toks[:i]...), toks[i+1:]...)), true
		}
	case 3:
		return joinToks(toks) + " " + []string{"'a'", "1", "; RETURN 1", ";;", "; ;", ")", "CREATE", "MATCH", "RETURN", ",", "AND", ".", "; CREATE (zz)", "UNION", "/", "|", "AS", "`x` `y` `z`", "{", "; // x\n;", "/* open", "'open", "\"open", "`open"}[r.Intn(24)], true
	case 4:
		// cut after a token that cannot be the last
		var at []int
		for i, x := range toks {
			switch x {
			case "=", "+", ",", "MATCH", "WHERE", "RETURN", "CREATE", "MERGE", "SET", "REMOVE", "DELETE", "AND", "OR", "XOR", "NOT", "<", "<=", ">=", "<>", "/", "%", "^", ".", ":", "CASE", "WHEN", "THEN", "ELSE", "BY", "SKIP", "LIMIT", "AS", "IN", "(", "[", "{", "+=", "UNION":
				at = append(at, i)
			}
		}
		if len(at) > 0 {
			return joinToks(toks[:at[r.Intn(len(at))]+1]), true
		}
	case 5:
		return []string{"", " ", "\n", "// x", "/* x */", ";", "()", "n", "1", "MATCH (n)", "MATCH (n) WHERE n.x = 1", "OPTIONAL MATCH (n)", "MATCH", "(n)-[]->(m)", "RETURN", "WHERE 1", "LIMIT 1", "\ufeff\ufeff"}[r.Intn(18)], true
	case 6:
		return joinToks(toks[1:]), false
	}
	return insert(0, "@"), true
}

func c06Pattern(t *T) {
	r := t.rng
	gg := GraphGen{rng: r, nMin: 1, nMax: 3, eMax: 3, loops: true, wide: true}
	q := NewQGen(r, gg.gen())
	q.maxRels = 3
	q.pVarLen = 20
	var text string
	switch r.Intn(3) {
	case 0:
		text = joinToks(cypherGrammar.sentence("oC_PatternPart", 14+r.Intn(26), r.Intn, terminal(r, []string{"this", "target", "x"})))
	default:
		p := &Printer{}
		p.part(q.matchPart())
		var toks []string
		for _, x := range p.toks {
			s := x.Text
			if strings.HasPrefix(s, "n") && r.Intn(3) == 0 {
				s = []string{"this", "target"}[r.Intn(2)]
			}
			toks = append(toks, s)
		}
		if r.Intn(2) == 0 {
			text = mutateBytes(r, joinToks(toks))
		} else {
			text = joinToks(t.mutate(toks))
		}
	}
	if heavy(text) {
		t.Skip()
		return
	}
	real := q.g.build()
	before := real.rawText()
	t.Eval(1)
	t.Event("pattern expressions")
	var pp oc.PatternPart
	var err error
	if p := protect(func() { pp, err = oc.ParsePatternExpr(text) }); p != "" {
		t.Violate("ParsePatternExpr panics: %s\ntext: %q", p, text)
		return
	}
	if is, known := cypherGrammar.is("oC_PatternPart", text); known && !is && err == nil {
		t.Violate("ParsePatternExpr accepts a text that is not a pattern: %q", text)
		return
	}
	t.Sig("pattern " + text)
	if err != nil {
		t.Event("rejected patterns")
		return
	}
	for _, id := range q.g.norder {
		n := real.nodes[id]
		inStep()
		if p := protect(func() { _, err = pp.FindRelative(n) }); p != "" {
			if strings.Contains(p, "disconnected from path") && strings.Contains(text, "*") {
				t.Skip()
				return
			}
			t.Violate("FindRelative panics: %s\ntext: %q\ngraph: %s", p, text, q.g)
			return
		}
	}
	if a := real.rawText(); a != before {
		t.Violate("FindRelative changed the graph\ntext: %q\ngraph: %s", text, q.g)
	}
}

// c06Pinned runs the texts that crash because of defects of the graph
// library that cannot be repaired here
func c06Pinned(t *T) {
	known := func(key, text string, g *lpg.Graph, vars ...string) {
		t.Eval(1)
		ctx := oc.NewEvalContext(g)
		if p := protect(func() { oc.ParseAndEvaluate(text, ctx) }); p != "" {
			t.Known(key, text+" panics: "+p)
		}
	}
	g := lpg.NewGraph()
	a := g.NewNode([]string{"A"}, nil)
	b := g.NewNode([]string{"B"}, nil)
	c := g.NewNode([]string{"C"}, nil)
	d := g.NewNode([]string{"D"}, nil)
	g.NewEdge(a, b, "R", nil)
	g.NewEdge(b, c, "S", nil)
	g.NewEdge(c, d, "T", nil)
	known("lpg-backward-path", "MATCH (a)-[r]->(b)-[s*1..2]->(d:D) RETURN a", g)
	for _, ix := range []lpg.IndexType{lpg.HashIndex, lpg.BtreeIndex} {
		g := lpg.NewGraph()
		g.AddNodePropertyIndex("x", ix)
		known(fmt.Sprintf("lpg-index-list-%d", ix), "CREATE (:A {x:1}), (:B {x:[1]}), (:C {x:[2]})", g)
	}
}
