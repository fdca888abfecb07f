package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
)

// randomGen makes a graph and a query generator with random settings
func randomGen(r *rand.Rand) *QGen {
	gg := GraphGen{rng: r, nMin: 0, nMax: 7, eMax: 9, loops: r.Intn(3) > 0, wide: r.Intn(2) == 0, index: 25, large: 60}
	q := NewQGen(r, gg.gen())
	q.wide = gg.wide
	q.maxRels = r.Intn(3)
	q.maxParts = 1 + r.Intn(2)
	if r.Intn(6) == 0 {
		q.pVarLen = 40
	}
	return q
}

// reading makes a query without updating clauses
func (q *QGen) reading() Single {
	r := q.rng
	var s Single
	for i := r.Intn(4); i > 0; i-- {
		s.Read = append(s.Read, q.match(len(s.Read) > 0 && r.Intn(3) == 0))
	}
	if len(s.Read) == 0 && r.Intn(4) > 0 {
		s.Read = append(s.Read, q.match(r.Intn(6) == 0))
	}
	if r.Intn(3) == 0 {
		s.Ret = q.retAll()
	} else {
		s.Ret = q.project()
	}
	return s
}

// updating makes a query with updating clauses
func (q *QGen) updating() Single {
	r := q.rng
	var s Single
	if r.Intn(4) > 0 {
		s.Read = append(s.Read, q.match(false))
		if r.Intn(5) == 0 {
			s.Read = append(s.Read, q.match(true))
		}
	}
	for i := 1 + r.Intn(2); i > 0; i-- {
		k := r.Intn(6)
		if len(q.vars("node")) == 0 && k < 3 {
			k = 3 + r.Intn(3)
		}
		switch k {
		case 0, 1:
			s.Upd = append(s.Upd, q.set())
		case 2:
			s.Upd = append(s.Upd, q.remove())
		case 3, 4:
			s.Upd = append(s.Upd, q.create(2))
		case 5:
			s.Upd = append(s.Upd, q.merge())
		}
	}
	if r.Intn(6) == 0 && len(s.Read) > 0 && len(q.vars("node"))+len(q.vars("edge")) > 0 && len(s.Upd) == 1 {
		s.Upd = []Clause{q.del()}
		if r.Intn(2) == 0 {
			s.Ret = &Return{Items: []RetItem{{E: Lit{1}}}}
		}
		return s
	}
	if r.Intn(3) > 0 {
		s.Ret = q.retState()
	}
	return s
}

func (q *QGen) any() Single {
	if q.rng.Intn(2) == 0 {
		return q.reading()
	}
	return q.updating()
}

func init() {
	register(&Check{ID: "C07", Quick: 2250, Thorough: 30000,
		Rule: "Random reading and updating queries, each run in four random layouts (white space of all kinds, comments, letter case of keywords, dashes and arrow heads, notations of literals, redundant parentheses, final semicolon), every one on a fresh copy of the graph, with result and graph compared to the reference. Counted: distinct layouts.",
		Run:  c07})
	register(&Check{ID: "C16", Quick: 3600, Thorough: 100000,
		Rule: "Random reading queries, many of them failing, over graphs and parameters whose lists and maps have sentinels in their spare capacity; a dump of the whole graph (with Go types and spare capacity) and of all parameters and context variables before is compared to the one after; values returned earlier are compared again after later queries. Counted: distinct (query, graph) pairs.",
		Run:  c16})
	register(&Check{ID: "C17", Quick: 3080, Thorough: 40000,
		Rule: "Two or three parsed queries evaluated 6-12 times in random interleaving, with the parameters and graph changing between evaluations (also parameters that are missing, of another type, or constants), each evaluation compared with the reference for its own arguments. Counted: distinct (query, arguments) evaluations after the first.",
		Run:  c17})
	register(&Check{ID: "C22", Quick: 10000, Thorough: 100000,
		Rule: "Random updating queries (CREATE, SET in all forms, MERGE with actions, REMOVE) and reading queries run with a property filter that logs its calls and changes values by key; the bag of calls and the whole graph are compared to a model. Counted: distinct (query, graph) pairs with at least one call.",
		Run: func(t *T) {
			q := updateGen(t)
			var s Single
			if q.rng.Intn(8) == 0 {
				s = q.reading()
			} else {
				s = q.updating()
			}
			c := q.queryCase(s)
			c.filter = true
			if q.rng.Intn(2) == 0 {
				c.sub = q.rng.Intn(4)
			}
			v := checkQuery(t, c, "queries with a filter")
			if !v.Skipped {
				t.EventN("calls of the filter", len(v.Calls))
				if s.Upd == nil && len(v.Calls) > 0 {
					t.Violate("a query without updating clauses called the property filter: %v\n%s", v.Calls, c.describe(v.Text))
				}
			}
		}})
	register(&Check{ID: "C25", Quick: 1080, Thorough: 30000,
		Rule: "Histories of up to 25 random statements (create, merge, set, remove, delete, read, and failing ones) on one graph, with or without indexes; after every statement the rows and the whole graph are compared to the model, and label scans, property indexes, adjacency lists and counts to a full scan. Counted: distinct (query, graph) pairs in histories.",
		Run:  c25})
}

func c07(t *T) {
	r := t.rng
	q := randomGen(r)
	ss := []Single{q.any()}
	var qq Query
	qq = Query{Singles: ss, Semi: r.Intn(4) == 0}
	if len(ss[0].Upd) == 0 && r.Intn(6) == 0 {
		qq.Singles = append(qq.Singles, ss[0])
		qq.All = []bool{r.Intn(2) == 0}
	}
	c := &QCase{g: q.g, q: qq, params: q.params}
	exp := c.expect(r, 30)
	if exp == nil {
		t.Skip()
		return
	}
	for i := 0; i < 4; i++ {
		lit := r
		if i == 0 {
			lit = nil
		}
		qq.Semi = r.Intn(4) == 0
		text := qq.text(lit, r)
		v := &Verdict{Exp: exp, Text: text}
		v.Real = q.g.build()
		v.Ctx, v.Vals = newCtx(v.Real, q.params)
		v.Obs = runText(text, v.Ctx)
		c.judge(v)
		if v.Skipped {
			t.Skip()
			return
		}
		t.Eval(1)
		t.Event("layouts")
		if v.Bad != "" && c.q.updates() > 0 && c.expect(r, 150) == nil {
			t.Skip()
			return
		}
		if v.Bad != "" {
			t.Violate("%s\n%slayout: %q\nplain layout: %s", v.Bad, c.describe(text), text, qq.text(nil, nil))
			return
		}
		if exp.err == nil {
			t.Sig(text)
		}
	}
}

// addSentinels gives the lists of the graph spare capacity
func (r *RealGraph) addSentinels(rng *rand.Rand) {
	fix := func(f func(func(string, interface{}) bool) bool, set func(string, interface{})) {
		m := map[string]interface{}{}
		f(func(k string, v interface{}) bool {
			if l, ok := v.([]interface{}); ok {
				switch rng.Intn(3) {
				case 0:
					x := make([]interface{}, len(l), len(l)+3)
					copy(x, l)
					for i := len(l); i < cap(x); i++ {
						x[:cap(x)][i] = "harness-sentinel"
					}
					m[k] = x
				case 1:
					x := make([]oc.Value, len(l), len(l)+3)
					for i := range l {
						x[i] = oc.ValueOf(l[i])
					}
					for i := len(l); i < cap(x); i++ {
						x[:cap(x)][i] = sentinel
					}
					m[k] = x
				}
			}
			return true
		})
		for k, v := range m {
			set(k, v)
		}
	}
	for itr := r.g.GetNodes(); itr.Next(); {
		n := itr.Node()
		fix(n.ForEachProperty, n.SetProperty)
	}
	for itr := r.g.GetEdges(); itr.Next(); {
		e := itr.Edge()
		fix(e.ForEachProperty, e.SetProperty)
	}
}

func valsText(vals map[string]oc.Value, r *RealGraph) string {
	m := map[string]oc.Value{}
	for k, v := range vals {
		m[k] = v
	}
	return rawValue(m, r)
}

func c16(t *T) {
	r := t.rng
	q := randomGen(r)
	if r.Intn(2) == 0 {
		gg := GraphGen{rng: r, nMin: 1, nMax: 5, eMax: 5, loops: true, wide: true, index: 25, large: 60}
		q.g = gg.gen()
		q.wide = true
	}
	real := q.g.build()
	real.addSentinels(r)
	eg := NewEGen(r)
	for _, ty := range []Ty{TLInt, TLStr, TMap, TLNum} {
		if r.Intn(2) == 0 {
			q.param(eg.genValue(ty))
		}
	}
	ctxVars := map[string]V{}
	for i, ty := range []Ty{TLInt, TLStr, TMap} {
		if r.Intn(2) == 0 {
			ctxVars[fmt.Sprintf("cv%d", i)] = eg.genValue(ty)
		}
	}
	type kept struct {
		row  string
		vals map[string]oc.Value
		text string
	}
	var keep []kept
	n := 1 + r.Intn(3)
	var vals map[string]oc.Value
	for i := 0; i < n; i++ {
		q.scope, q.names = nil, nil
		s := q.reading()
		switch r.Intn(6) {
		case 0: // fails
			s.Ret.Items = append(s.Ret.Items, RetItem{E: []Expr{Var{"nosuchvariable"}, Bin{"+", Lit{1}, Lit{"a"}}, Bin{"/", Lit{1}, Lit{0}}, Func{"nosuchfunction", nil}}[r.Intn(4)]})
			s.Ret.Distinct, s.Ret.Order = false, nil
		case 1, 2, 3:
			e := q.egen()
			e.envP = 0.9
			for k, v := range ctxVars {
				e.addLeaf(Var{k}, v)
			}
			e.w = map[string]int{"*": 1, "lconcat": 6, "list": 2, "slice": 2, "map": 2}
			for j := 1 + r.Intn(3); j > 0; j-- {
				s.Ret.Items = append(s.Ret.Items, RetItem{E: e.gen([]Ty{TLInt, TLStr, TLInt, TMap, TLNum}[r.Intn(5)], 3)})
			}
			s.Ret.Distinct, s.Ret.Order = false, nil
		}
		c := q.queryCase(s)
		c.vars = ctxVars
		if exp := c.expect(r, 0); exp == nil { // bounds the work
			t.Skip()
			continue
		}
		before := real.rawText()
		ctx := oc.NewEvalContext(real.g)
		if vals == nil {
			vals = map[string]oc.Value{}
		}
		for k, v := range q.params {
			if vals[k] == nil {
				vals[k] = toValue(v, real)
			}
			ctx.SetParameter("$"+k, vals[k])
		}
		for k, v := range ctxVars {
			if vals["var "+k] == nil {
				vals["var "+k] = toValue(v, real)
			}
			ctx.SetVar(k, vals["var "+k])
		}
		text := c.q.text(nil, nil)
		vb := valsText(vals, real)
		o := runText(text, ctx)
		if o.Panic != "" {
			if c.q.hazard() && strings.Contains(o.Panic, "disconnected from path") {
				t.Skip()
				continue
			}
			t.Violate("%s\n%s", o, c.describe(text))
			return
		}
		t.Eval(1)
		t.Event("reading queries")
		if o.Err != nil {
			t.Event("failing queries")
		}
		if after := real.rawText(); after != before {
			t.Violate("a reading query changed the graph from\n%s\nto\n%s\n%s", before, after, c.describe(text))
			return
		}
		if d := real.consistency(q.g); d != "" {
			t.Violate("after a reading query, %s\n%s", d, c.describe(text))
			return
		}
		if va := valsText(vals, real); va != vb {
			t.Violate("a query changed its parameters or variables from\n%s\nto\n%s\n%s", vb, va, c.describe(text))
			return
		}
		for _, k := range keep {
			if x := realRow(k.vals, real); x != k.row {
				t.Violate("a result of %s changed from\n%s\nto\n%s\nwhile running\n%s", k.text, k.row, x, c.describe(text))
				return
			}
		}
		if o.Err == nil {
			for _, row := range o.RS.Rows {
				keep = append(keep, kept{realRow(row, real), row, text})
			}
		}
		t.Sig(text + " | " + q.g.String())
	}
}

// varied returns another value of the same kind, sometimes none, or of
// another kind. ok is false if the parameter should be missing
func varied(r *rand.Rand, v V) (V, bool) {
	eg := NewEGen(r)
	switch r.Intn(12) {
	case 0:
		return nil, false
	case 1:
		return nil, true
	case 2:
		return eg.genValue(Ty(r.Intn(int(nTypes)))), true
	}
	switch x := v.(type) {
	case int:
		return r.Intn(5), true
	case string:
		return []string{"a", "b", "it's", "日"}[r.Intn(4)], true
	case Map:
		m := Map{}
		for _, k := range sortedKeys(x) {
			z, ok := varied(r, x[k])
			if ok {
				m[k] = z
			}
		}
		return m, true
	default:
		if ty, ok := tyOf(v); ok {
			return eg.genValue(ty), true
		}
	}
	return v, true
}

func c17(t *T) {
	r := t.rng
	type pq struct {
		c      *QCase
		gg     GraphGen
		parsed oc.Evaluatable
		n      int
	}
	var qs []*pq
	for i := 2 + r.Intn(2); i > 0; i-- {
		gg := GraphGen{rng: r, nMin: 0, nMax: 6, eMax: 7, loops: true, wide: r.Intn(2) == 0, large: 60}
		q := NewQGen(r, gg.gen())
		q.wide = gg.wide
		q.pParam = 50
		q.maxRels, q.maxParts = r.Intn(3), 1+r.Intn(2)
		p := &pq{gg: gg}
		if r.Intn(3) == 0 {
			// expressions
			cfg := exprCfg{types: []Ty{TInt, TFlt, TBool, TStr, TLInt, TLNum, TMap}, nullP: 0.05, wrongP: 0.02, depth: 4, temporals: true}
			e := newExprEnv(r, &cfg)
			ret := &Return{}
			for k := 1 + r.Intn(4); k > 0; k-- {
				x := e.gen.gen(cfg.types[r.Intn(len(cfg.types))], 3)
				if r.Intn(3) == 0 {
					// constants next to a parameter
					x = ListE{[]Expr{x, Bin{"+", e.gen.num(1), Lit{r.Intn(3)}}}}
				}
				ret.Items = append(ret.Items, RetItem{E: x})
			}
			s := Single{Ret: ret}
			if e.node {
				s.Read = []Match{{Parts: []Part{{Nodes: []NodePat{{Var: "n"}}}}}}
			}
			vars := map[string]V{}
			for k, v := range e.vars {
				if k != "n" {
					vars[k] = v
				}
			}
			p.c = &QCase{g: e.g, q: Query{Singles: []Single{s}}, params: e.params, vars: vars}
		} else {
			s := q.any()
			p.c = q.queryCase(s)
			if len(s.Upd) == 0 && r.Intn(5) == 0 {
				p.c.q.Singles = append(p.c.q.Singles, s)
				p.c.q.All = []bool{r.Intn(2) == 0}
			}
		}
		var err error
		text := p.c.q.text(nil, nil)
		if pn := protect(func() { p.parsed, err = oc.Parse(text) }); pn != "" || err != nil {
			t.Violate("%s cannot be parsed: %s %v", text, pn, err)
			return
		}
		qs = append(qs, p)
	}
	evals := 6 + r.Intn(7)
	if r.Intn(40) == 0 {
		evals = 40
	}
	for i := evals; i > 0; i-- {
		p := qs[r.Intn(len(qs))]
		c := &QCase{q: p.c.q, params: map[string]V{}, vars: map[string]V{}, parsed: p.parsed, g: p.c.g, maxRow: 1000}
		if r.Intn(3) > 0 && len(p.c.vars) == 0 {
			c.g = p.gg.gen()
		}
		for _, k := range sortedKeys(p.c.params) {
			v := p.c.params[k]
			if r.Intn(3) == 0 {
				c.params[k] = v
			} else if x, ok := varied(r, v); ok {
				c.params[k] = x
			}
		}
		if r.Intn(5) == 0 {
			// a failure somewhere in the middle
			keys := []string{}
			for k := range c.params {
				keys = append(keys, k)
			}
			sortStrings(keys)
			if len(keys) > 0 {
				k := keys[r.Intn(len(keys))]
				if r.Intn(2) == 0 {
					delete(c.params, k)
				} else {
					c.params[k] = Map{"wrong": true}
				}
			}
		}
		for _, k := range sortedKeys(p.c.vars) {
			v := p.c.vars[k]
			c.vars[k] = v
			if r.Intn(2) == 0 {
				if x, ok := varied(r, v); ok {
					c.vars[k] = x
				}
			}
		}
		c.consts = r.Intn(5) == 0
		v := c.run(r)
		if v.Skipped {
			t.Skip()
			continue
		}
		t.Eval(1)
		t.Event("evaluations")
		if v.Exp.err != nil {
			t.Event("failing evaluations")
		}
		if v.Bad != "" {
			// does a fresh parse give the right result?
			c2 := *c
			c2.parsed = nil
			fresh := "a fresh parse gives the same"
			if w := c2.run(r); w.Bad == "" {
				fresh = "a fresh parse is right"
			}
			t.Violate("evaluation %d of a parsed query (%s): %s\n%svariables: %s", p.n+1, fresh, v.Bad, c.describe(v.Text), canon(Map(c.vars), nil))
			return
		}
		if p.n > 0 {
			t.Sig(v.Text + " | " + canon(Map(c.params), nil) + c.g.String())
		}
		p.n++
	}
}

func c25(t *T) {
	r := t.rng
	gg := GraphGen{rng: r, nMin: 0, nMax: 4, eMax: 4, loops: true, wide: r.Intn(3) == 0, index: 40, large: 100}
	model := gg.gen()
	real := model.build()
	steps := 5 + r.Intn(21)
	if r.Intn(25) == 0 {
		steps = 100
	}
	var log []string
	for i := 0; i < steps; i++ {
		q := NewQGen(r, model)
		q.wide = gg.wide
		q.maxRels = r.Intn(3)
		q.maxParts = 1
		q.pProp = 35
		if r.Intn(4) == 0 {
			q.maxParts = 2
		}
		var s Single
		switch k := r.Intn(10); {
		case len(model.nodes) > 14:
			// shrink
			s.Read = []Match{{Parts: []Part{{Nodes: []NodePat{{Var: "n", Labels: q.labels(1), Props: q.patProps(nil, false)}}}}}}
			s.Upd = []Clause{Delete{Detach: true, Exprs: []Expr{Var{"n"}}}}
		case k < 6:
			s = q.updating()
		case k == 6:
			s.Upd = []Clause{q.create(2)}
		default:
			s = q.reading()
		}
		c := q.queryCase(s)
		c.real = real
		c.maxRow = 400
		var last *lpg.Node
		for itr := real.g.GetNodes(); itr.Next(); {
			last = itr.Node()
		}
		v := c.run(r)
		if v.Skipped && v.Obs == nil {
			t.Skip() // not run
			continue
		}
		log = append(log, v.Text)
		if v.Skipped {
			// run, but the outcome is not specified
			if v.Obs.Panic != "" {
				return
			}
		} else {
			t.Eval(1)
			t.Event("statements")
			if v.Bad != "" {
				t.Violate("statement %d: %s\n%shistory:\n%s", len(log), v.Bad, c.describe(v.Text), strings.Join(log, "\n"))
				return
			}
			if v.Exp.err != nil {
				t.Event("failing statements")
			} else {
				x := v.Exp.exec
				t.EventN("elements created", x.nCreated)
				t.EventN("elements deleted", x.nDeleted)
				t.EventN("updates", x.nSet)
				t.EventN("rows returned", len(v.Exp.res.Rows))
			}
			t.Sig(v.Text + " | " + c.g.String())
		}
		model, real = real.importGraph(model)
		if d := real.consistency(model); d != "" {
			t.Violate("after statement %d, %s\nhistory:\n%s", len(log), d, strings.Join(log, "\n"))
			return
		}
		if last != nil {
			found := false
			for itr := real.g.GetNodes(); itr.Next(); {
				if itr.Node() == last {
					found = true
				}
			}
			if !found {
				// lpg loses the nodes created from now on
				t.Event("histories ended by deleting the last node")
				return
			}
		}
	}
	t.Event("complete histories")
}
