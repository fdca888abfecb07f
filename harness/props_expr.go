package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"time"

	oc "github.com/cloudprivacylabs/opencypher"
)

// exprCfg configures a batch of random expressions
type exprCfg struct {
	types     []Ty
	weights   map[string]int
	nullP     float64
	bigP      float64
	wrongP    float64
	depth     int
	temporals bool
	count     int
	top       func(g *EGen) Expr // instead of types
	style     bool
}

// exprEnv is the environment of a batch: parameters, variables of the
// context, and a node with properties
type exprEnv struct {
	params map[string]V
	vars   map[string]V
	g      *MGraph
	node   bool
	env    *Env
	gen    *EGen
}

func newExprEnv(r *rand.Rand, cfg *exprCfg) *exprEnv {
	e := &exprEnv{params: map[string]V{}, vars: map[string]V{}, g: NewMGraph()}
	g := NewEGen(r)
	g.nullP, g.bigP, g.wrongP = cfg.nullP, cfg.bigP, cfg.wrongP
	if cfg.weights != nil {
		g.w = cfg.weights
	}
	nt := int(TDate)
	if cfg.temporals {
		nt = int(nTypes)
	}
	for i := 0; i < nt; i++ {
		t := Ty(i)
		v := g.genValue(t)
		n := fmt.Sprintf("p%d", i)
		e.params[n] = v
		g.addLeaf(Param{n}, v)
		if r.Intn(2) == 0 {
			v := g.genValue(t)
			n := fmt.Sprintf("v%d", i)
			e.vars[n] = v
			g.addLeaf(Var{n}, v)
		}
	}
	for i := 0; i < 2; i++ {
		n := fmt.Sprintf("s%d", i)
		e.params[n] = r.Intn(6)
		g.smalls = append(g.smalls, Param{n})
	}
	if cfg.nullP > 0 {
		e.params["pnull"] = nil
		g.addLeaf(Param{"pnull"}, nil)
		e.vars["vnull"] = nil
		g.addLeaf(Var{"vnull"}, nil)
	}
	if r.Intn(2) == 0 {
		e.node = true
		props := map[string]V{}
		for i := 0; i < nt; i++ {
			if Ty(i) == TMap {
				continue
			}
			if r.Intn(3) == 0 {
				continue
			}
			props[fmt.Sprintf("k%d", i)] = g.genValue(Ty(i))
		}
		n := e.g.addNode([]string{"A"}, props)
		for _, k := range sortedKeys(props) {
			g.addLeaf(Prop{Var{"n"}, k}, props[k])
		}
		if cfg.nullP > 0 {
			g.addLeaf(Prop{Var{"n"}, "missing"}, nil)
		}
		g.nodes = append(g.nodes, Var{"n"})
		e.vars["n"] = NodeRef(n.id)
	}
	e.env = &Env{params: e.params, vars: e.vars, g: e.g}
	e.gen = g
	return e
}

// newReal makes a real graph and context for the environment
func (e *exprEnv) newReal() (*RealGraph, *oc.EvalContext, map[string]oc.Value) {
	real := e.g.build()
	ctx, vals := newCtx(real, e.params)
	for k, v := range e.vars {
		if k == "n" {
			continue
		}
		ctx.SetVar(k, toValue(v, real))
	}
	return real, ctx, vals
}

func (e *exprEnv) prefix() string {
	if e.node {
		return "MATCH (n) RETURN "
	}
	return "RETURN "
}

func (e *exprEnv) describe() string {
	s := ""
	for _, k := range sortedKeys(e.params) {
		v := e.params[k]
		s += "$" + k + "=" + canon(v, nil) + " "
	}
	for _, k := range sortedKeys(e.vars) {
		v := e.vars[k]
		s += k + "=" + canon(v, nil) + " "
	}
	if e.node {
		s += e.g.String()
	}
	return s
}

func operators(e Expr) int {
	p := &Printer{}
	p.expr(e, lvOr)
	return len(p.toks)
}

// exprCase runs a batch of random expressions against the reference
func exprCase(t *T, cfg exprCfg) {
	if cfg.count == 0 {
		cfg.count = 30
	}
	if cfg.depth == 0 {
		cfg.depth = 3
	}
	e := newExprEnv(t.rng, &cfg)
	var good []Expr
	var want []V
	nerr := 0
	for i := 0; i < cfg.count; i++ {
		var x Expr
		if cfg.top != nil {
			x = cfg.top(e.gen)
		} else {
			x = e.gen.gen(cfg.types[t.rng.Intn(len(cfg.types))], 1+t.rng.Intn(cfg.depth))
		}
		v, err := e.env.Eval(x)
		switch err {
		case nil:
			good = append(good, x)
			want = append(want, v)
		case errEval:
			nerr++
			if nerr > 2 {
				t.Skip()
				continue
			}
			e.expectError(t, x)
		default:
			t.Skip()
		}
	}
	e.expectValues(t, good, want, cfg.style)
}

func (e *exprEnv) text(es []Expr, lit *rand.Rand, style *rand.Rand) string {
	p := &Printer{rng: lit}
	for i, x := range es {
		if i > 0 {
			p.opt()
			p.w(",")
			p.opt()
		}
		p.expr(x, lvOr)
	}
	return e.prefix() + Style{style}.text(p.toks)
}

func (e *exprEnv) expectError(t *T, x Expr) {
	real, ctx, _ := e.newReal()
	text := e.text([]Expr{x}, nil, nil)
	o := runText(text, ctx)
	t.Eval(1)
	t.Event("errors expected")
	if o.Panic != "" {
		t.Violate("%s\nquery: %s\nenvironment: %s", o, text, e.describe())
		return
	}
	if o.Err == nil {
		o.canonRows(real)
		t.Violate("an error was expected, got %s\nquery: %s\nenvironment: %s", o, text, e.describe())
	}
	t.Sig(text)
}

// matchesV compares a model value with the canonical form of a real one
func matchesV(v V, c string) bool {
	if hasLazy(v) {
		return true
	}
	return canon(v, nil) == c
}

func (e *exprEnv) expectValues(t *T, es []Expr, want []V, style bool) {
	if len(es) == 0 {
		return
	}
	lit := t.rng
	if t.rng.Intn(2) == 0 {
		lit = nil
	}
	var st *rand.Rand
	if style {
		st = t.rng
	}
	text := e.text(es, lit, st)
	real, ctx, vals := e.newReal()
	o := runText(text, ctx)
	if o.Panic != "" || o.Err != nil || len(o.RS.Rows) != 1 {
		// find the expression
		if len(es) > 1 {
			for i := range es {
				n := t.nViol
				e.expectValues(t, es[i:i+1], want[i:i+1], style)
				if t.nViol > n {
					return
				}
			}
		}
		t.Violate("%s; expected %s\nquery: %s\nenvironment: %s", o, canon(List(want), nil), text, e.describe())
		return
	}
	row := o.RS.Rows[0]
	if len(row) != len(es) {
		t.Violate("%d columns expected, got %d\nquery: %s", len(es), len(row), text)
		return
	}
	for i := range es {
		t.Eval(1)
		c := canonReal(row[strconv.Itoa(i+1)], real)
		x := exprText(es[i])
		if w := canon(want[i], nil); !matchesV(want[i], c) {
			t.Violate("%s should be %s, but is %s\nquery: %s\nenvironment: %s", x, w, c, text, e.describe())
			return
		}
		if operators(es[i]) > 1 {
			t.Sig(x + " -> " + c)
		}
		if want[i] == nil {
			t.Event("null results")
		} else {
			t.Event(fmt.Sprintf("%T results", want[i]))
		}
	}
	for k, v := range vals {
		if !sentinelsIntact(v) || canonReal(v, real) != canon(e.params[k], nil) {
			t.Violate("the value of parameter %s was changed from %s to %s\nquery: %s", k, canon(e.params[k], nil), canonReal(v, real), text)
			return
		}
	}
}

func onlyW(tags string) map[string]int {
	m := map[string]int{"*": 0}
	for _, f := range strings.Fields(tags) {
		n := 1
		if i := strings.IndexByte(f, '='); i > 0 {
			n, _ = strconv.Atoi(f[i+1:])
			f = f[:i]
		}
		m[f] = n
	}
	return m
}

func init() {
	register(&Check{ID: "C01", Quick: 2250, Thorough: 20000,
		Rule: "Random typed arithmetic and concatenation expressions (literals in all notations, parameters, context variables, node properties; chains, nesting, boundary integers, wrongly typed operands) evaluated by the interpreter and by an independent reference evaluator. Counted: distinct expression texts with at least one operator, with their result.",
		Run: func(t *T) {
			cfg := exprCfg{types: []Ty{TInt, TInt, TFlt, TStr, TLInt}, weights: onlyW("paren=2 arith=2 unary=2 unaryp=1 pow=2 concat=2 lconcat=2 list=1"), bigP: 0.06, nullP: 0.01, wrongP: 0.01, depth: 4}
			exprCase(t, cfg)
		}})
	register(&Check{ID: "C02", Quick: 1750, Thorough: 20000,
		Rule: "Random expressions with many null operands (literal, parameter, variable, missing property, element out of range) over every operator, and random formulas of AND, OR, XOR, NOT, IS NULL, compared with a reference evaluator for three-valued logic; in addition WHERE keeps exactly the rows whose predicate is true. Counted: distinct expression texts with at least one operator.",
		Run: func(t *T) {
			if t.rng.Intn(6) == 0 {
				c02Where(t)
				return
			}
			cfg := exprCfg{types: []Ty{TBool, TBool, TBool, TBool, TInt, TStr, TFlt, TLInt}, nullP: 0.3, depth: 4, wrongP: 0.003}
			if t.rng.Intn(2) == 0 {
				cfg.types = []Ty{TBool}
				cfg.weights = onlyW("paren=1 logic=6 not=2 isnull=1 cmp=3 cmpbool=1 in=1")
				cfg.depth = 5
			}
			exprCase(t, cfg)
		}})
	register(&Check{ID: "C04", Quick: 900, Thorough: 20000,
		Rule: "Random expressions over lists, maps, indexing, slicing, CASE, IN, string operators and property access with bounds inside and outside of the lists, compared with a reference evaluator. Counted: distinct expression texts with at least one operator.",
		Run: func(t *T) {
			cfg := exprCfg{types: []Ty{TLInt, TLStr, TLNum, TMap, TInt, TStr, TBool}, weights: map[string]int{"*": 1, "list": 3, "lconcat": 2, "slice": 4, "elem": 4, "case": 3, "strop": 4, "in": 3, "map": 3, "range": 1}, nullP: 0.04, depth: 4, wrongP: 0.01}
			exprCase(t, cfg)
		}})
	register(&Check{ID: "C20", Quick: 2250, Thorough: 20000,
		Rule: "Random calls of the built-in functions (range, size, left, right, substring, trim, ltrim, rtrim, split, toInteger, toFloat and their OrNull forms, labels, type, date, parseDate) on Unicode strings, boundary numbers, nulls, and wrong types or numbers of arguments, compared with a reference implementation. Counted: distinct calls with their result.",
		Run:  c20, Pinned: c20Pinned})
	register(&Check{ID: "C24", Quick: 1750, Thorough: 15000,
		Rule: "Random expressions over dates, local times, local date-times and durations (addition and subtraction in both operand orders, scaling of durations, comparisons, date() in all argument forms, storing in and reading from properties), in a randomly chosen local time zone, compared with reference calendar arithmetic. Counted: distinct expression texts with their result.",
		Run: func(t *T) {
			if t.sub {
				c24Zone(t)
				return
			}
			old := time.Local
			defer func() { time.Local = old }()
			zones := []int{0, 0, 3600, -18000, 19800, 46800, -43200, 20700}
			time.Local = time.FixedZone("test", zones[t.rng.Intn(len(zones))])
			if t.rng.Intn(2) == 0 {
				// zones that change their clocks
				if l, err := time.LoadLocation([]string{"America/New_York", "Europe/Berlin", "Australia/Lord_Howe", "Pacific/Apia", "America/Sao_Paulo", "Asia/Kathmandu", "America/Havana", "America/Asuncion"}[t.rng.Intn(8)]); err == nil {
					time.Local = l
					t.Event("zones with clock changes")
				}
			}
			c24Zone(t)
		}})
	register(&Check{ID: "C03", Quick: 3600, Thorough: 20000,
		Rule: "Sets of 2-7 values of one comparable kind (numbers of both types, strings, booleans, dates, local times, local date-times, durations; near-equal, far-apart and equal ones), every pair compared with all six operators, IN, CASE and DISTINCT, chains of comparisons, and ORDER BY over all of them, checked against one reference total order. Counted: distinct ordered pairs and chains with their outcome.",
		Run:  c03})
}

var durText = regexp.MustCompile(`^P(-?[0-9]+)M(-?[0-9]+)DT(-?[0-9]+(?:\.[0-9]{9})?)S$`)

// c24Values: the Go values of dates, times and durations
func c24Values(t *T) bool {
	r := t.rng
	bad := ""
	p := protect(func() {
		zone := time.Local
		if r.Intn(3) == 0 {
			zone = time.UTC
		}
		month, dom := 1+r.Intn(12), 1+r.Intn(31)
		if r.Intn(3) == 0 {
			// the days at which something changes
			x := [][2]int{{1, 1}, {12, 31}, {2, 28}, {2, 29}, {3, 1}, {12, 30}, {1, 2}}[r.Intn(7)]
			month, dom = x[0], x[1]
		}
		tm := time.Date(1000+r.Intn(8000), time.Month(month), dom, r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(1000000000), zone)
		y, m, d := tm.Date()
		hh, mm, ss := tm.Clock()
		ns := tm.Nanosecond()
		day := fmt.Sprintf("%04d-%02d-%02d", y, m, d)
		clock := fmt.Sprintf("%02d:%02d:%02d", hh, mm, ss)
		date, lt, ldt := oc.NewDate(tm), oc.NewLocalTime(tm), oc.NewLocalDateTime(tm)
		if s := date.String(); s != day {
			bad = fmt.Sprintf("NewDate(%v).String() is %s", tm, s)
			return
		}
		if x := date.Time(); x.Hour() != 0 || x.Minute() != 0 || x.Second() != 0 || x.Nanosecond() != 0 {
			bad = fmt.Sprintf("NewDate(%v) is %v", tm, x)
			return
		}
		if s, x := lt.String(), lt.Time(); s != clock || x.Nanosecond() != ns || canonNative(lt, nil, true) != canon(RLT{nanosOfDay(tm)}, nil) {
			bad = fmt.Sprintf("NewLocalTime(%v) is %s, %d ns", tm, s, x.Nanosecond())
			return
		}
		if other := oc.NewLocalTime(time.Date(1900+r.Intn(200), time.Month(1+r.Intn(12)), 1+r.Intn(28), hh, mm, ss, ns, time.UTC)); !other.Time().Equal(lt.Time()) {
			bad = fmt.Sprintf("NewLocalTime(%v) and the local time of another day with the same clock are different instants: %v %v", tm, lt.Time(), other.Time())
			return
		}
		// the time zone can skip the wall-clock time
		back := time.Date(y, m, d, hh, mm, ss, ns, time.Local)
		if s, x := ldt.String(), ldt.Time(); back.Hour() == hh && (s != day+"T"+clock || x.Nanosecond() != ns) {
			bad = fmt.Sprintf("NewLocalDateTime(%v) is %s, %d ns", tm, s, x.Nanosecond())
			return
		}
		if s := oc.Time(tm).String(); s != clock {
			bad = fmt.Sprintf("Time(%v).String() is %s", tm, s)
			return
		}
		n := func() int64 { return int64(r.Intn(5)-2) * int64(1+r.Intn(1000000)) }
		small := []int64{0, 1, -1, 59, 60, -60}
		dur := oc.Duration{Months: n(), Days: n(), Seconds: n(), Nanos: int(n()) * 997}
		if r.Intn(3) == 0 {
			dur.Seconds = small[r.Intn(6)]
			dur.Nanos = []int{1, -1, 500000000, -500000000, 1000000000, -1000000000, 999999999, 1500000000, -2500000000}[r.Intn(9)]
		}
		s := dur.String()
		parts := durText.FindStringSubmatch(s)
		if parts == nil {
			bad = fmt.Sprintf("the text of %#v is %s", dur, s)
			return
		}
		months, _ := strconv.ParseInt(parts[1], 10, 64)
		days, _ := strconv.ParseInt(parts[2], 10, 64)
		secs, _ := new(big.Rat).SetString(parts[3])
		secs.Sub(secs, big.NewRat(dur.Seconds, 1))
		secs.Sub(secs, big.NewRat(int64(dur.Nanos), 1000000000))
		if months != dur.Months || days != dur.Days || secs.Sign() != 0 {
			bad = fmt.Sprintf("the text of %#v is %s", dur, s)
			return
		}
		other := dur
		switch r.Intn(5) {
		case 0:
			other.Months++
		case 1:
			other.Days--
		case 2:
			other.Seconds++
		case 3:
			other.Nanos--
		}
		if dur.Equal(other) != (dur == other) || other.Equal(dur) != (dur == other) {
			bad = fmt.Sprintf("%#v.Equal(%#v) is %v", dur, other, dur.Equal(other))
		}
	})
	t.Eval(1)
	t.Event("values made and shown")
	if p+bad != "" {
		t.Violate("%s%s (local time zone: %v)", p, bad, time.Local)
		return false
	}
	return true
}

func c02Where(t *T) {
	g := NewMGraph()
	r := t.rng
	eg := NewEGen(r)
	for i := 0; i < 8; i++ {
		p := map[string]V{}
		if r.Intn(3) > 0 {
			p["x"] = r.Intn(3)
		}
		if r.Intn(3) > 0 {
			p["y"] = r.Intn(3)
		}
		if r.Intn(3) > 0 {
			p["b"] = r.Intn(2) == 0
		}
		g.addNode(nil, p)
	}
	eg.leaves[TInt] = []Expr{Prop{Var{"n"}, "x"}, Prop{Var{"n"}, "y"}}
	eg.leaves[TBool] = []Expr{Prop{Var{"n"}, "b"}}
	eg.envP = 0.9
	eg.nullP = 0.05
	eg.w = onlyW("paren=1 logic=4 not=2 isnull=2 cmp=4 in=1")
	q := Query{Singles: []Single{{Read: []Match{{Parts: []Part{{Nodes: []NodePat{{Var: "n"}}}}, Where: eg.gen(TBool, 4)}}, Ret: &Return{Items: []RetItem{{E: Var{"n"}}}}}}}
	c := &QCase{g: g, q: q}
	checkQuery(t, c, "WHERE")
}

// checkQuery runs a query case and reports what it finds
func checkQuery(t *T, c *QCase, event string) *Verdict {
	v := c.run(t.rng)
	if v.Skipped {
		t.Skip()
		return v
	}
	t.Eval(1)
	t.Event(event)
	if v.Bad != "" {
		t.Violate("%s\n%s", v.Bad, c.describe(v.Text))
		return v
	}
	if v.Exp.err != nil {
		t.Event("errors expected")
	} else {
		x := v.Exp.exec
		t.EventN("rows matched", x.nMatched)
		t.EventN("rows returned", len(v.Exp.res.Rows))
		if x.nCreated > 0 {
			t.EventN("elements created", x.nCreated)
		}
		if x.nDeleted > 0 {
			t.EventN("elements deleted", x.nDeleted)
		}
		if x.nSet > 0 {
			t.EventN("updates", x.nSet)
		}
		if x.nMerged > 0 {
			t.EventN("merges that matched", x.nMerged)
		}
		if len(v.Exp.res.Rows) > 0 || x.nCreated+x.nDeleted+x.nSet > 0 {
			t.Sig(v.Text + " | " + c.g.String())
		}
	}
	return v
}

func c03(t *T) {
	r := t.rng
	eg := NewEGen(r)
	eg.bigP = 0.15
	kind := r.Intn(9)
	n := 2 + r.Intn(6)
	edges := r.Intn(3) == 0
	var vals []V
	for i := 0; i < n; i++ {
		var v V
		switch kind {
		case 0, 1:
			v = eg.genInt()
			if r.Intn(2) == 0 {
				v = eg.genFloat()
			}
			if r.Intn(6) == 0 && len(vals) > 0 {
				// near another value
				if x, ok := vals[r.Intn(len(vals))].(int); ok && x < 1<<40 && x > -(1<<40) {
					v = []V{float64(x), float64(x) + 0.5, x + 1, float64(x) - 0.25}[r.Intn(4)]
				}
			}
		case 2:
			v = eg.genInt()
		case 3:
			v = genStr(r)
			if edges { // runes at the ends of the encodings' ranges
				rs := make([]rune, r.Intn(3))
				for j := range rs {
					rs[j] = edgeRunes[r.Intn(len(edgeRunes))]
				}
				v = string(rs)
			}
		case 4:
			v = r.Intn(2) == 0
		case 5:
			v = eg.genDate()
		case 6:
			v = RLT{eg.genNanos()}
		case 7:
			v = eg.genValue(TLDT)
		case 8:
			v = eg.genDur()
			if len(vals) > 0 && r.Intn(2) == 0 {
				d := vals[r.Intn(len(vals))].(RDur)
				switch r.Intn(4) {
				case 0:
					d.Months++
				case 1:
					d.Days--
				case 2:
					d.Secs++
				default:
					d.Nanos++
				}
				v = d
			}
		}
		if len(vals) > 0 && r.Intn(3) == 0 {
			v = eg.near(vals[r.Intn(len(vals))])
		}
		if len(vals) > 0 && r.Intn(6) == 0 {
			v = vals[r.Intn(len(vals))]
		}
		vals = append(vals, v)
	}
	g := NewMGraph()
	for _, v := range vals {
		g.addNode(nil, map[string]V{"v": v})
	}
	if r.Intn(3) == 0 {
		g.addNode(nil, nil) // no value
	}
	a, b, c := Prop{Var{"a"}, "v"}, Prop{Var{"b"}, "v"}, Prop{Var{"c"}, "v"}
	node := func(s string) Part { return Part{Nodes: []NodePat{{Var: s}}} }
	// all pairs
	ret := &Return{}
	for _, op := range cmpOps {
		ret.Items = append(ret.Items, RetItem{E: Cmp{First: a, Rest: []CmpPart{{op, b}}}})
	}
	ret.Items = append(ret.Items,
		RetItem{E: In{a, ListE{[]Expr{b}}}},
		RetItem{E: Case{Test: a, Whens: []CaseWhen{{b, Lit{"same"}}}, Else: Lit{"other"}}},
		RetItem{E: Not{Cmp{First: a, Rest: []CmpPart{{"<", b}}}}},
		RetItem{E: Var{"a"}}, RetItem{E: Var{"b"}},
	)
	q := Query{Singles: []Single{{Read: []Match{{Parts: []Part{node("a"), node("b")}}}, Ret: ret}}}
	v := checkQuery(t, &QCase{g: g, q: q}, "all pairs")
	if v.Bad != "" {
		return
	}
	if !v.Skipped {
		for i := range vals {
			for j := range vals {
				if i != j {
					x, _ := compare(vals[i], vals[j])
					t.Sig(fmt.Sprintf("%s ~ %s: %d", canon(vals[i], nil), canon(vals[j], nil), x))
					t.Event(fmt.Sprintf("pairs compared (%d)", x))
				}
			}
		}
	}
	// sorting
	word := []string{"", "ASC", "ASCENDING", "DESC", "DESCENDING"}[r.Intn(5)]
	ret = &Return{Items: []RetItem{{E: Prop{Var{"n"}, "v"}, Alias: "v"}, {E: Var{"n"}, Alias: "n"}}, Order: []SortItem{{E: Var{"v"}, Word: word}}}
	if r.Intn(2) == 0 {
		ret.Distinct = true
		ret.Items = ret.Items[:1]
	}
	q = Query{Singles: []Single{{Read: []Match{{Parts: []Part{node("n")}}}, Ret: ret}}}
	if v := checkQuery(t, &QCase{g: g, q: q}, "sorts"); v.Bad != "" {
		return
	}
	// chains
	ch := Cmp{First: a, Rest: []CmpPart{{cmpOps[r.Intn(6)], b}, {cmpOps[r.Intn(6)], c}}}
	if r.Intn(2) == 0 {
		ch.Rest = append(ch.Rest, CmpPart{cmpOps[r.Intn(6)], a})
	}
	if n <= 5 {
		ret = &Return{Items: []RetItem{{E: ch}, {E: Var{"a"}}, {E: Var{"b"}}, {E: Var{"c"}}}}
		q = Query{Singles: []Single{{Read: []Match{{Parts: []Part{node("a"), node("b"), node("c")}}}, Ret: ret}}}
		checkQuery(t, &QCase{g: g, q: q}, "chains")
	}
	// values of different kinds
	if r.Intn(3) == 0 {
		c03Mixed(t, eg, vals, kind)
	}
	// wrongly typed comparisons are errors
	if r.Intn(4) == 0 {
		bad := Cmp{First: a, Rest: []CmpPart{{cmpOps[r.Intn(6)], ListE{}}}}
		q = Query{Singles: []Single{{Read: []Match{{Parts: []Part{node("a")}}}, Ret: &Return{Items: []RetItem{{E: bad}}}}}}
		checkQuery(t, &QCase{g: g, q: q}, "comparisons of different kinds")
	}
}

var edgeRunes = []rune{1, 0x20, 0x7F, 0x80, 0xFF, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xEFFF, 0xF000, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x3FFFF, 0x40000, 0x10FFFF}

// near is a value of the same kind that is close to v, or differs from
// it in a single component
func (g *EGen) near(v V) V {
	r := g.rng
	sign := 1 - 2*r.Intn(2)
	nanos := func(n int64) int64 {
		n += int64(sign) * []int64{1, 1000, 1e6, 1e9, 60e9, 3600e9, 499999999, 12 * 3600e9}[r.Intn(8)]
		return (n%86400e9 + 86400e9) % 86400e9
	}
	date := func(d RDate) RDate {
		switch r.Intn(3) {
		case 0:
			d.Y += sign
		case 1:
			d.M = 1 + (d.M-1+sign+12)%12
		default:
			d.D = 1 + (d.D-1+sign+28)%28
		}
		if d.D > 28 {
			d.D = 28
		}
		return d
	}
	switch x := v.(type) {
	case string:
		switch c := []rune(x); {
		case len(c) == 0 || r.Intn(3) == 0:
			return x + string([]rune{'a', ' ', 'é', 0x1F600, 1, 0xE000, 0xFFFF}[r.Intn(7)])
		case r.Intn(2) == 0:
			return string(c[:len(c)-1])
		default:
			i := r.Intn(len(c))
			if c[i] += rune(sign); r.Intn(4) == 0 {
				c[i] = []rune{'~', 0xFF, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xEEEE, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF}[r.Intn(11)]
			} else if c[i] <= 0 || c[i] > 0x10FFFF || (c[i] >= 0xD800 && c[i] < 0xE000) {
				c[i] = 'x'
			}
			return string(c)
		}
	case RDate:
		return date(x)
	case RLT:
		return RLT{nanos(x.Nanos)}
	case RLDT:
		y := x
		if r.Intn(3) == 0 {
			y.Date = date(x.Date)
		} else {
			y.Nanos = nanos(x.Nanos)
		}
		if y.exists() {
			return y
		}
	case RDur:
		switch r.Intn(6) {
		case 0:
			x.Months += int64(sign)
		case 1:
			x.Days += int64(sign)
		case 2:
			x.Secs += int64(sign)
		case 3:
			x.Nanos += sign
		case 4:
			x.Nanos += sign * 1000
		default:
			x.Months, x.Days = x.Months+int64(sign), x.Days-30*int64(sign)
		}
		return x
	}
	return v
}

// c03Mixed compares and sorts values of which at least one is of a
// different kind
func c03Mixed(t *T, eg *EGen, vals []V, kind int) {
	r := t.rng
	var other V
	for {
		k := r.Intn(7)
		other = []func() V{
			func() V { return eg.genInt() },
			func() V { return genStr(r) },
			func() V { return r.Intn(2) == 0 },
			func() V { return eg.genDate() },
			func() V { return RLT{eg.genNanos()} },
			func() V { return eg.genValue(TLDT) },
			func() V { return eg.genDur() },
		}[k]()
		if _, err := compare(vals[0], other); err == errEval {
			break
		}
	}
	mixed := append([]V{}, vals...)
	at := r.Intn(len(mixed) + 1)
	mixed = append(mixed[:at:at], append([]V{other}, mixed[at:]...)...)
	if r.Intn(2) == 0 {
		mixed = append(mixed, other)
	}
	g := NewMGraph()
	for _, v := range mixed {
		g.addNode(nil, map[string]V{"v": v})
	}
	if r.Intn(4) == 0 {
		g.addNode(nil, nil)
	}
	n := Prop{Var{"n"}, "v"}
	read := []Match{{Parts: []Part{{Nodes: []NodePat{{Var: "n"}}}}}}
	word := []string{"", "ASC", "DESC"}[r.Intn(3)]
	ret := &Return{Items: []RetItem{{E: n, Alias: "v"}}, Order: []SortItem{{E: Var{"v"}, Word: word}}}
	if r.Intn(2) == 0 {
		ret.Order[0].E = n
		ret.Items[0].Alias = "w"
	}
	if r.Intn(3) == 0 {
		ret.Limit = Lit{1}
	}
	q := Query{Singles: []Single{{Read: read, Ret: ret}}}
	if checkQuery(t, &QCase{g: g, q: q}, "sorts of different kinds").Bad != "" {
		return
	}
	// each operator on one pair of values of different kinds
	x, y := vals[r.Intn(len(vals))], other
	if r.Intn(2) == 0 {
		x, y = y, x
	}
	op := cmpOps[r.Intn(6)]
	e := Expr(Cmp{First: Param{"x"}, Rest: []CmpPart{{op, Param{"y"}}}})
	q = Query{Singles: []Single{{Ret: &Return{Items: []RetItem{{E: e}}}}}}
	checkQuery(t, &QCase{g: NewMGraph(), q: q, params: map[string]V{"x": x, "y": y}}, "operators on different kinds")
	t.Sig(fmt.Sprintf("%T %s %T", x, op, y))
}

func c20(t *T) {
	cfg := exprCfg{types: []Ty{TInt, TStr, TFlt, TLStr, TLInt}, weights: map[string]int{"*": 0, "strfn": 4, "size": 2, "toint": 3, "tofloat": 3, "split": 3, "range": 3, "concat": 1}, nullP: 0.04, bigP: 0.1, depth: 2, wrongP: 0.02}
	r := t.rng
	if r.Intn(2) == 0 {
		cfg.top = func(g *EGen) Expr {
			i := func() Expr {
				if r.Intn(10) == 0 {
					return Lit{nil}
				}
				return Lit{[]int{0, 1, 2, 3, 5, 8, 13, 1000000, 9223372036854775807}[r.Intn(9)]}
			}
			s := func() Expr { return g.leaf(TStr) }
			switch r.Intn(15) {
			case 14:
				// many elements
				n := 30 + r.Intn(300)
				if r.Intn(5) == 0 {
					n = 500 + r.Intn(4000)
				}
				from, step := r.Intn(20)-10, 1+r.Intn(3)
				l := Func{"range", []Expr{Lit{from}, Lit{from + n*step}, Lit{step}}}
				if r.Intn(2) == 0 {
					l.Args = []Expr{Lit{from}, Lit{from - n*step}, Lit{-step}}
				}
				switch r.Intn(4) {
				case 0:
					return Func{"size", []Expr{l}}
				case 1:
					return Index{l, Lit{n - r.Intn(5)}}
				case 2:
					return Slice{L: l, From: Lit{n - r.Intn(30)}}
				}
				return l
			case 0:
				return Func{"range", []Expr{Lit{r.Intn(20) - 10}, Lit{r.Intn(20) - 10}, Lit{[]int{1, 2, 3, 7, -1, -2, -5}[r.Intn(7)]}}}
			case 1:
				m := 9223372036854775807
				return Func{"range", []Expr{Lit{m - r.Intn(5)}, Lit{m - r.Intn(3)}, Lit{1 + r.Intn(4)}}}
			case 2:
				m := -9223372036854775807
				return Func{"range", []Expr{Lit{m + r.Intn(5)}, Lit{m + r.Intn(3)}, Lit{-1 - r.Intn(4)}}}
			case 3:
				return Func{[]string{"left", "right"}[r.Intn(2)], []Expr{s(), i()}}
			case 4:
				return Func{"substring", []Expr{s(), i()}}
			case 5:
				return Func{"substring", []Expr{s(), i(), i()}}
			case 6:
				pad := []string{" ", "\t", "\n", "\u00a0", "\u2003", "  ", "\r\n", ""}
				x := pad[r.Intn(len(pad))] + strPool[r.Intn(len(strPool))] + pad[r.Intn(len(pad))]
				return Func{[]string{"trim", "ltrim", "rtrim"}[r.Intn(3)], []Expr{Lit{x}}}
			case 7:
				return Func{"split", []Expr{s(), Lit{[]string{",", " ", "a", "ab", "日", "aa", "b c"}[r.Intn(7)]}}}
			case 8:
				n := strconv.Itoa(r.Intn(2000001) - 1000000)
				if r.Intn(3) == 0 {
					n = []string{"4294967296", "-4294967297", "2147483648", "-2147483649", "9223372036854775807", "-9223372036854775807", "9007199254740993", "123456789012345678"}[r.Intn(8)]
				}
				x := []string{n, n + "." + strconv.Itoa(r.Intn(1000)), "abc", "x1", "--1", "1x", "", "é", "-0", "007"}[r.Intn(10)]
				return Func{[]string{"toInteger", "toIntegerOrNull", "toFloat", "toFloatOrNull"}[r.Intn(4)], []Expr{Lit{x}}}
			case 9:
				var a Expr = []Expr{g.leaf(TBool), g.leaf(TFlt), g.leaf(TInt), Lit{nil}, g.leaf(TLInt), g.leaf(TMap), Lit{2.999}, Lit{-2.999}, Lit{1e15}}[r.Intn(9)]
				return Func{[]string{"toInteger", "toIntegerOrNull", "toFloat", "toFloatOrNull"}[r.Intn(4)], []Expr{a}}
			case 10:
				return Func{"size", []Expr{g.gen([]Ty{TStr, TLInt, TLStr, TLNum}[r.Intn(4)], 2)}}
			case 11:
				return Func{"date", []Expr{Lit{dateText(g.genDate(), r)}}}
			case 12:
				ks := []string{"year", "month", "day"}[:1+r.Intn(3)]
				m := MapE{Keys: ks}
				d := g.genDate()
				for _, x := range []int{d.Y, d.M, d.D}[:len(ks)] {
					m.Vals = append(m.Vals, Lit{x})
				}
				return Func{"date", []Expr{m}}
			}
			if len(g.nodes) > 0 {
				return Func{"size", []Expr{Func{"labels", []Expr{g.nodes[0]}}}}
			}
			return Func{"labels", []Expr{Lit{nil}}}
		}
	}
	exprCase(t, cfg)
	if r.Intn(8) == 0 {
		c20Errors(t)
	}
	if r.Intn(4) == 0 {
		c20Graph(t)
	}
	if r.Intn(8) == 0 {
		c20Now(t)
	}
}

// c24Zone is the check in one time zone
func c24Zone(t *T) {
	if !c24Values(t) {
		return
	}
	cfg := exprCfg{types: []Ty{TDate, TLT, TLDT, TDur, TDur, TDate, TLDT}, weights: map[string]int{"*": 1, "temporal": 8, "case": 1, "elem": 1}, temporals: true, depth: 3, nullP: 0.02, wrongP: 0.01}
	if t.rng.Intn(3) == 0 {
		cfg.top = func(g *EGen) Expr {
			ty := []Ty{TDate, TLT, TLDT, TDur}[g.rng.Intn(4)]
			c := Cmp{First: g.gen(ty, 2), Rest: []CmpPart{{cmpOps[g.rng.Intn(6)], g.gen(ty, 2)}}}
			if g.rng.Intn(3) == 0 {
				// t + d - d = t, for days and shorter
				c = Cmp{First: Bin{"-", Bin{"+", g.leaf(ty), g.leaf(TDur)}, g.leaf(TDur)}, Rest: []CmpPart{{"=", g.leaf(ty)}}}
			}
			return c
		}
	}
	exprCase(t, cfg)
}

// c20Pinned: parseDate in a zone that skips the midnight of that date
func c20Pinned(t *T) {
	old := time.Local
	defer func() { time.Local = old }()
	l, err := time.LoadLocation("America/Sao_Paulo")
	if err != nil {
		panic("harness: " + err.Error())
	}
	time.Local = l
	text := "RETURN parseDate('2018-11-04', 'YYYY-MM-DD') AS a"
	ctx, _ := newCtx(NewMGraph().build(), nil)
	o := runText(text, ctx)
	t.Eval(1)
	if o.Panic != "" || o.Err != nil {
		t.Violate("%s: %s", text, o)
		return
	}
	if s := canonReal(o.RS.Rows[0]["a"], nil); s != canon(RDate{2018, 11, 4}, nil) {
		t.Known("parsedate-skipped-midnight", text+" gives "+s+" in America/Sao_Paulo")
	}
}

// c20Errors: wrong numbers of arguments, and unknown functions
func c20Errors(t *T) {
	r := t.rng
	calls := []string{"range(1)", "range()", "range(1,2,3,4)", "size()", "size('a','b')", "left('a')", "left('a',1,2)", "right('a')", "substring('a')", "substring('a',1,2,3)", "trim()", "trim('a','b')", "ltrim()", "rtrim('a','b')", "split('a')", "split('a','b','c')", "toInteger()", "toInteger(1,2)", "toFloat()", "toFloat(1,2)", "toIntegerOrNull()", "toFloatOrNull(1,2)", "labels()", "labels(1)", "labels('x')", "type(1)", "type('x')", "type()", "nosuchfunction(1)", "a.b(1)", "range('a',2)", "range(1,2.5)", "range(1,'b')", "left(1,2)", "left('abc','x')", "right('abc',1.5)", "substring(5,1)", "substring('abc','x')", "trim(1)", "ltrim([])", "rtrim({})", "split(1,'a')", "split('a',2)", "date(1)", "date(1,2)", "date('hello')", "date('2020-13-45')", "date('2021-02-29')", "toInteger([])", "toFloat({})", "parseDate('x')", "parseDate(1,'YYYY')", "timestamp(1)"}
	c := calls[r.Intn(len(calls))]
	_, ctx, _ := (&exprEnv{g: NewMGraph()}).newReal()
	o := runText("RETURN "+c, ctx)
	t.Eval(1)
	t.Event("calls that must fail")
	if o.Panic != "" || o.Err == nil {
		t.Violate("RETURN %s must be an error: %s", c, o)
	}
	t.Sig(c)
}

// c20Graph: labels and type on a graph
func c20Graph(t *T) {
	r := t.rng
	g := GraphGen{rng: r, nMin: 1, nMax: 6, eMax: 6, loops: true}.gen()
	real := g.build()
	ctx, _ := newCtx(real, nil)
	o := runText("MATCH (n) RETURN n, labels(n) AS l, size(labels(n)) AS s, 'A' IN labels(n) AS hasA", ctx)
	if o.Panic != "" || o.Err != nil {
		t.Violate("labels(): %s\ngraph: %s", o, g)
		return
	}
	t.Eval(1)
	if len(o.RS.Rows) != len(g.nodes) {
		t.Violate("labels(): %d rows for %d nodes", len(o.RS.Rows), len(g.nodes))
		return
	}
	for _, row := range o.RS.Rows {
		n := nodeOf(row["1"])
		id, ok := real.nodeID[n]
		l, ok2 := row["l"].Get().([]oc.Value)
		if !ok || !ok2 {
			t.Violate("labels() gave %T", row["l"].Get())
			return
		}
		got := map[string]bool{}
		for _, x := range l {
			s, _ := x.Get().(string)
			got[s] = true
		}
		want := g.nodes[id].labels
		if len(l) != len(want) || labelText(got) != labelText(want) || row["s"].Get() != len(want) || (len(want) > 0 && row["hasA"].Get() != want["A"]) {
			t.Violate("labels of %s: %s, size %v, has A: %v", labelText(want), canonReal(row["l"], real), row["s"].Get(), row["hasA"].Get())
			return
		}
		t.Sig("labels " + labelText(want))
	}
	q := Query{Singles: []Single{{Read: []Match{{Parts: []Part{{Nodes: []NodePat{{}, {}}, Rels: []RelPat{{Var: "r", Dir: 1}}}}}}, Ret: &Return{Items: []RetItem{{E: Func{"type", []Expr{Var{"r"}}}}, {E: Var{"r"}}}}}}}
	checkQuery(t, &QCase{g: g, q: q}, "type()")
}

// c20Now: the functions that read the clock
func c20Now(t *T) {
	ctx, _ := newCtx(NewMGraph().build(), nil)
	before := time.Now()
	o := runText("RETURN timestamp() AS t, date() AS d, date({timezone: 'UTC'}) AS u", ctx)
	after := time.Now()
	t.Eval(1)
	t.Event("clock functions")
	if o.Panic != "" || o.Err != nil {
		t.Violate("timestamp(), date(): %s", o)
		return
	}
	row := o.RS.Rows[0]
	ts, ok := row["t"].Get().(int)
	if !ok || int64(ts) < before.Unix() || int64(ts) > after.Unix() {
		t.Violate("timestamp() is %v, it should be between %d and %d", row["t"].Get(), before.Unix(), after.Unix())
		return
	}
	for _, k := range []string{"d", "u"} {
		d, ok := row[k].Get().(oc.Date)
		loc := time.Local
		if k == "u" {
			loc = time.UTC
		}
		x, y := before.In(loc).Format("2006-01-02"), after.In(loc).Format("2006-01-02")
		if !ok || (d.String() != x && d.String() != y) {
			t.Violate("date() is %v, expected %s", row[k].Get(), x)
			return
		}
	}
	r := t.rng
	d := NewEGen(r).genDate()
	text := fmt.Sprintf("RETURN parseDate('%04d/%02d/%02d', 'YYYY/MM/DD') = date('%04d-%02d-%02d') AS a, parseDate(null, 'YYYY') AS b, parseDate('x', null) AS c, parseDate('%02d.%02d.%04d', 'DD.MM.YYYY') AS e", d.Y, d.M, d.D, d.Y, d.M, d.D, d.D, d.M, d.Y)
	ctx, _ = newCtx(NewMGraph().build(), nil)
	o = runText(text, ctx)
	t.Eval(1)
	if o.Panic != "" || o.Err != nil {
		t.Violate("%s: %s", text, o)
		return
	}
	row = o.RS.Rows[0]
	if row["a"].Get() != true || row["b"].Get() != nil || row["c"].Get() != nil || canonReal(row["e"], nil) != canon(d, nil) {
		t.Violate("%s: %s", text, realRow(row, nil))
	}
	t.Sig(text)
}
