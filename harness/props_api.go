package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
)

func init() {
	register(&Check{ID: "C18", Quick: 3900, Thorough: 80000,
		Rule: "Random trees of contexts with variables and parameters set, shadowed, replaced and removed in random order, compared to a model of nested scopes through the API and through queries; expressions and queries (patterns with bound nodes, updates) run in chains of contexts with decoys in the outer ones and compared to the reference. Counted: distinct (text, context) pairs.",
		Run:  c18})
	register(&Check{ID: "C19", Quick: 176, Thorough: 8000, Race: true, Procs: 16,
		Rule: "Batches of 2-8 goroutines started together under the Go race detector: random queries, each with its own context and graph (or, for reading queries, one shared graph), with random yields; cases of the other checks with their monitors, unordered or in lockstep, so that the evaluations of one query run at the same time without locks between them; and first uses in a new process. Every result and graph is compared to the reference. Counted: distinct batches by the order in which the goroutines finished their queries.",
		Run:  c19})
	register(&Check{ID: "C21", Quick: 30800, Thorough: 400000,
		Rule: "Random patterns (1-4 relationships, all directions, labels, types, properties, lengths) with nodes this and target on random graphs, from every node of the graph, several times with one parsed pattern in random order; the bag of targets is compared to a brute-force search, and a dump of the graph before to the one after. Counted: distinct (pattern, graph) pairs.",
		Run:  c21})
	register(&Check{ID: "C23", Quick: 3380, Thorough: 120000,
		Rule: "Graphs whose properties, and parameters and variables that, have every native Go type that ValueOf accepts, at random nesting, read through random expressions and stored again; a type walker checks every value of every result, and values are compared exactly with the native ones. Counted: distinct (native value, use) pairs.",
		Run:  c23})
	register(&Check{ID: "C26", Quick: 450000, Thorough: 3000000,
		Rule: "Random histories of Append, Add, Union, Column and CartesianProduct (method and function) on result sets of 0-4 rows and 0-3 columns with values of all kinds, compared to lists and sets of rows; after writing to the results all other result sets are compared again. Counted: distinct histories.",
		Run:  c26})
}

// ---- C18

// ctxChain makes a chain of contexts with the parameters and variables
// spread over it, and decoys in the outer contexts
func ctxChain(r *rand.Rand, real *RealGraph, params, vars map[string]V) (*oc.EvalContext, []*oc.EvalContext, map[string]oc.Value) {
	n := 1 + r.Intn(4)
	chain := []*oc.EvalContext{oc.NewEvalContext(real.g)}
	for i := 1; i < n; i++ {
		chain = append(chain, chain[i-1].SubContext())
	}
	vals := map[string]oc.Value{}
	decoy := func() oc.Value {
		return []oc.Value{oc.ValueOf("decoy"), oc.ValueOf(-77), oc.ValueOf(nil), oc.ValueOf([]interface{}{"decoy"})}[r.Intn(4)]
	}
	keys := func(m map[string]V) []string {
		var out []string
		for k := range m {
			out = append(out, k)
		}
		sort.Strings(out)
		return out
	}
	set := func(k string, v V, f func(c *oc.EvalContext, x oc.Value)) {
		at := r.Intn(n)
		for i := 0; i < at; i++ {
			if r.Intn(2) == 0 {
				f(chain[i], decoy())
			}
		}
		if r.Intn(4) == 0 {
			f(chain[at], decoy())
		}
		x := toValue(v, real)
		vals[k] = x
		f(chain[at], x)
	}
	for _, k := range keys(params) {
		set(k, params[k], func(c *oc.EvalContext, x oc.Value) { c.SetParameter("$"+k, x) })
	}
	for _, k := range keys(vars) {
		set(k, vars[k], func(c *oc.EvalContext, x oc.Value) {
			if r.Intn(3) == 0 {
				c.SetVars(map[string]oc.Value{k: x})
			} else {
				c.SetVar(k, x)
			}
		})
	}
	return chain[n-1], chain, vals
}

func c18(t *T) {
	switch t.rng.Intn(4) {
	case 0:
		c18Tree(t)
	case 1:
		c18Expr(t)
	default:
		c18Query(t)
	}
}

// c18Tree: a tree of contexts against nested maps
func c18Tree(t *T) {
	r := t.rng
	type scope struct {
		ctx    *oc.EvalContext
		parent *scope
		vars   map[string]V
		params map[string]V
	}
	real := NewMGraph().build()
	scopes := []*scope{{oc.NewEvalContext(real.g), nil, map[string]V{}, map[string]V{}}}
	names := []string{"a", "b", "A", "日", "with space", "a1", "match", "_"}
	var log []string
	value := func() V {
		return []V{r.Intn(100), "s" + strconv.Itoa(r.Intn(100)), nil, List{r.Intn(9), "x"}, true, 1.5, Map{"k": r.Intn(9)}}[r.Intn(7)]
	}
	lookup := func(s *scope, n string, params bool) (V, bool) {
		for x := s; x != nil; x = x.parent {
			m := x.vars
			if params {
				m = x.params
			}
			if v, ok := m[n]; ok {
				return v, true
			}
		}
		return nil, false
	}
	n := 10 + r.Intn(40)
	deep := r.Intn(6) == 0
	if r.Intn(30) == 0 {
		for i := 0; i < 30; i++ {
			names = append(names, "n"+strconv.Itoa(i))
		}
		n += 60
	}
	for step := 0; step < n; step++ {
		i := r.Intn(len(scopes))
		if deep && r.Intn(2) == 0 {
			i = len(scopes) - 1
		}
		s := scopes[i]
		name := names[r.Intn(len(names))]
		switch r.Intn(9) {
		case 0, 1:
			v := value()
			s.vars[name] = v
			s.ctx.SetVar(name, toValue(v, real))
			log = append(log, fmt.Sprintf("%d.SetVar(%q, %s)", i, name, canon(v, nil)))
		case 2:
			m := map[string]oc.Value{}
			for k := r.Intn(4); k > 0; k-- {
				nm := names[r.Intn(len(names))]
				v := value()
				m[nm] = toValue(v, real)
				s.vars[nm] = v
				log = append(log, fmt.Sprintf("%d.SetVars(%q: %s)", i, nm, canon(v, nil)))
			}
			// columns without a name are no variables
			m[strconv.Itoa(1+r.Intn(30))] = oc.ValueOf("unnamed")
			s.ctx.SetVars(m)
		case 3:
			delete(s.vars, name)
			s.ctx.RemoveVar(name)
			log = append(log, fmt.Sprintf("%d.RemoveVar(%q)", i, name))
		case 4:
			v := value()
			s.params[name] = v
			s.ctx.SetParameter("$"+name, toValue(v, real))
			log = append(log, fmt.Sprintf("%d.SetParameter(%q, %s)", i, name, canon(v, nil)))
		case 5:
			if len(scopes) < 7 || (deep && len(scopes) < 60) {
				scopes = append(scopes, &scope{s.ctx.SubContext(), s, map[string]V{}, map[string]V{}})
				log = append(log, fmt.Sprintf("%d = %d.SubContext()", len(scopes)-1, i))
			}
		default:
			// look at everything from here
			t.Eval(1)
			for _, params := range []bool{false, true} {
				for _, nm := range names {
					want, ok := lookup(s, nm, params)
					var got oc.Value
					var err error
					text := "RETURN " + name1(nm)
					if params {
						got, err = s.ctx.GetParameter("$" + nm)
						text = "RETURN $" + name1(nm)
					} else {
						got, err = s.ctx.GetVar(nm)
					}
					if ok != (err == nil) {
						t.Violate("%s in context %d (parameter: %v): expected bound %v, got error %v\n%s", nm, i, params, ok, err, strings.Join(log, "\n"))
						return
					}
					if ok {
						if a, b := canon(want, nil), canonReal(got, real); a != b {
							t.Violate("%s in context %d (parameter: %v): expected %s, got %s\n%s", nm, i, params, a, b, strings.Join(log, "\n"))
							return
						}
					}
					if r.Intn(12) > 0 {
						continue
					}
					o := runText(text, s.ctx)
					o.canonRows(real)
					if ok {
						exp := modelRow(Row{"1": want}, nil)
						if o.Err != nil || o.Panic != "" || len(o.Rows) != 1 || o.Rows[0] != exp {
							t.Violate("%s in context %d: expected %s, got %s\n%s", text, i, exp, o, strings.Join(log, "\n"))
							return
						}
					} else if o.Err == nil {
						t.Violate("%s in context %d: the name is not known, got %s\n%s", text, i, o, strings.Join(log, "\n"))
						return
					}
				}
			}
			near := map[string]bool{}
			for k := range s.ctx.GetVarsNearestScope() {
				near[k] = true
			}
			if len(near) != len(s.vars) {
				t.Violate("context %d: GetVarsNearestScope has %v, expected %d variables\n%s", i, near, len(s.vars), strings.Join(log, "\n"))
				return
			}
			for k := range s.vars {
				if !near[k] {
					t.Violate("context %d: GetVarsNearestScope does not have %s\n%s", i, k, strings.Join(log, "\n"))
					return
				}
			}
		}
	}
	t.Event("trees")
	t.Sig(strings.Join(log, "; "))
}

func name1(s string) string { return name(s) }

// c18Expr: the same expression with names, and with values in place
func c18Expr(t *T) {
	r := t.rng
	cfg := exprCfg{nullP: 0.05, bigP: 0.02, temporals: r.Intn(3) == 0}
	e := newExprEnv(r, &cfg)
	e.node = false
	delete(e.vars, "n")
	e.gen.nodes = nil
	for k, ls := range e.gen.leaves {
		var keep []Expr
		for _, l := range ls {
			if p, ok := l.(Prop); ok && p.E == (Var{"n"}) {
				continue
			}
			keep = append(keep, l)
		}
		e.gen.leaves[k] = keep
	}
	var nulls []Expr
	for _, l := range e.gen.nulls {
		if _, ok := l.(Prop); !ok {
			nulls = append(nulls, l)
		}
	}
	e.gen.nulls = nulls
	e.gen.envP = 0.85
	real := e.g.build()
	ctx, chain, vals := ctxChain(r, real, e.params, e.vars)
	before := make([]string, len(chain))
	for i, c := range chain {
		before[i] = ctxText(c, real)
	}
	for i := 0; i < 6; i++ {
		nt := int(TDate)
		if cfg.temporals {
			nt = int(nTypes)
		}
		x := e.gen.gen(Ty(r.Intn(nt)), 1+r.Intn(3))
		want, err := e.env.Eval(x)
		if err == errUnspec {
			t.Skip()
			continue
		}
		text := "RETURN " + exprText(x)
		o := runText(text, ctx)
		o.canonRows(real)
		t.Eval(1)
		bad := ""
		switch {
		case o.Panic != "":
			bad = o.Panic
		case err != nil:
			if o.Err == nil {
				bad = "an error was expected, got " + o.String()
			}
		case o.Err != nil:
			bad = o.String()
		case hasLazy(want):
		case len(o.Rows) != 1 || o.Rows[0] != modelRow(Row{"1": want}, nil):
			bad = fmt.Sprintf("expected %s, got %s", modelRow(Row{"1": want}, nil), o)
		}
		if bad != "" {
			t.Violate("%s\n%s\n%s", bad, text, e.describe())
			return
		}
		t.Sig(text + e.describe())
	}
	for i, c := range chain {
		if a := ctxText(c, real); a != before[i] {
			t.Violate("evaluating expressions changed the variables of context %d of %d\nbefore: %s\nafter: %s", i, len(chain), before[i], a)
			return
		}
	}
	for k, v := range vals {
		if !sentinelsIntact(v) {
			t.Violate("the list in %s was overwritten behind its end", k)
		}
	}
	t.Event("expressions")
}

// c18Query: queries with variables of the context, that are bound
// nodes in patterns, or values in expressions
func c18Query(t *T) {
	r := t.rng
	q := randomGen(r)
	q.g.nIndex, q.g.eIndex = map[string]lpg.IndexType{}, map[string]lpg.IndexType{}
	vars := map[string]V{}
	for i := 0; i < 1+r.Intn(3); i++ {
		if len(q.g.norder) > 0 && r.Intn(3) > 0 {
			n := q.fresh()
			vars[n] = NodeRef(q.g.norder[r.Intn(len(q.g.norder))])
			q.add(n, "node")
		}
	}
	if len(q.g.norder) > 0 && len(vars) == 0 {
		vars["stephen"] = NodeRef(q.g.norder[r.Intn(len(q.g.norder))])
		q.add("stephen", "node")
	}
	q.pBound = 50
	s := q.any()
	c := &QCase{g: q.g, q: Query{Singles: []Single{s}}, params: q.params, vars: vars}
	c.chain = r
	v := checkQuery(t, c, "queries in derived contexts")
	if v.Skipped || v.Bad != "" {
		return
	}
	for i, b := range v.ChainBefore[:len(v.ChainBefore)-1] {
		if a := ctxText(v.Chain[i], v.Real); a != b {
			t.Violate("the query changed the variables of the outer context %d\nbefore: %s\nafter: %s\n%s", i, b, a, c.describe(v.Text))
			return
		}
	}
	// README: the variables that CREATE defines are in the context, and
	// restrict later queries
	if len(s.Read) == 0 && len(s.Upd) == 1 && v.Exp.err == nil {
		cr, ok := s.Upd[0].(Create)
		if !ok {
			return
		}
		for _, p := range cr.Parts {
			for i, n := range p.Nodes {
				if n.Var == "" || (i < len(p.Rels) && p.Rels[i].Var == n.Var) {
					continue
				}
				x, err := v.Ctx.GetVar(n.Var)
				if err != nil {
					t.Violate("the variable %s of CREATE is not in the context: %v\n%s", n.Var, err, c.describe(v.Text))
					return
				}
				nd, ok := x.Get().(*lpg.Node)
				if !ok {
					t.Violate("the variable %s of CREATE is a %T\n%s", n.Var, x.Get(), c.describe(v.Text))
					return
				}
				o := runText("MATCH ("+name(n.Var)+") RETURN "+name(n.Var), v.Ctx)
				if o.Err != nil || o.Panic != "" || len(o.RS.Rows) != 1 || o.RS.Rows[0]["1"].Get() != interface{}(nd) {
					t.Violate("MATCH (%s) after the CREATE does not give the created node only: %s\n%s", n.Var, o, c.describe(v.Text))
					return
				}
				t.Event("created variables used again")
			}
		}
	}
}

// ---- C19

func c19(t *T) {
	r := t.rng
	if r.Intn(2) == 0 {
		coldCase(t)
	}
	if r.Intn(2) == 0 {
		c19Mixed(t)
		return
	}
	type job struct {
		c    *QCase
		seed int64
		side *sideJob
		bad  string
		skip bool
		v    *Verdict
	}
	n := 4 + r.Intn(5)
	shared := r.Intn(3) == 0
	var sharedGraph *MGraph
	var sharedReal *RealGraph
	if shared {
		gg := GraphGen{rng: r, nMin: 2, nMax: 7, eMax: 9, loops: true, wide: true}
		sharedGraph = gg.gen()
		sharedReal = sharedGraph.build()
	}
	// some queries are run by several goroutines, each parsing its own
	var common []*QCase
	mk := func() *QCase {
		var q *QGen
		if shared {
			q = NewQGen(r, sharedGraph)
			q.wide = true
			q.maxRels = r.Intn(3)
		} else {
			q = randomGen(r)
		}
		var s Single
		if shared {
			s = q.reading()
		} else {
			s = q.any()
		}
		return &QCase{g: q.g, q: Query{Singles: []Single{s}}, params: q.params}
	}
	for i := 0; i < 3; i++ {
		common = append(common, mk())
	}
	jobs := make([][]*job, n)
	for i := range jobs {
		for k := 2 + r.Intn(4); k > 0; k-- {
			var c *QCase
			if r.Intn(2) == 0 {
				c = common[r.Intn(len(common))]
			} else {
				c = mk()
			}
			cc := *c
			cc.real = sharedReal
			j := &job{c: &cc, seed: r.Int63()}
			if r.Intn(2) == 0 {
				g := sharedGraph
				if g == nil {
					g = c.g
				}
				j.side = newSideJob(r, g)
			}
			jobs[i] = append(jobs[i], j)
		}
	}
	// what is expected is computed before
	exp := make([][]*outcome, n)
	for i := range jobs {
		for _, j := range jobs[i] {
			e := j.c.expect(r, 4)
			if e == nil || (j.c.q.hazard()) {
				j.skip = true
			}
			exp[i] = append(exp[i], e)
		}
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	order := make(chan int, 1000)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for k, j := range jobs[i] {
				if j.side != nil {
					j.bad = protect(func() { j.bad = j.side.run(sharedReal) })
					if j.side.bad != "" || j.bad != "" {
						j.bad += j.side.bad
						continue
					}
				}
				if j.skip {
					continue
				}
				jr := rand.New(rand.NewSource(j.seed))
				for y := jr.Intn(4); y > 0; y-- {
					runtime.Gosched()
				}
				v := &Verdict{Exp: exp[i][k]}
				j.bad = protect(func() {
					v.Real = j.c.real
					if v.Real == nil {
						v.Real = j.c.g.build()
					}
					v.Ctx, v.Vals = newCtx(v.Real, j.c.params)
					v.Text = j.c.q.text(nil, nil)
					if jr.Intn(2) == 0 {
						v.Obs = runText(v.Text, v.Ctx)
					} else {
						v.Obs = &Obs{}
						v.Obs.Panic = protect(func() {
							e, err := oc.Parse(v.Text)
							if err != nil {
								v.Obs.Err = err
								return
							}
							for y := jr.Intn(3); y > 0; y-- {
								runtime.Gosched()
							}
							val, err := e.Evaluate(v.Ctx)
							v.Obs.take(val, err)
						})
					}
				})
				if j.bad != "" {
					continue
				}
				order <- i
				if shared {
					// compared at the end: it looks at the whole graph
					j.v = v
					continue
				}
				j.c.judge(v)
				j.bad = v.Bad
			}
		}(i)
	}
	close(start)
	wg.Wait()
	close(order)
	sig := ""
	for i := range order {
		sig += strconv.Itoa(i)
	}
	for i := range jobs {
		for k, j := range jobs[i] {
			if j.side != nil {
				t.EventN("escapes, patterns and result sets", 3)
				if j.bad != "" {
					t.Violate("goroutine %d: %s", i, j.bad)
					return
				}
			}
			if j.skip {
				t.Skip()
				continue
			}
			if j.v != nil && j.bad == "" {
				j.c.judge(j.v)
				j.bad = j.v.Bad
			}
			t.Eval(1)
			t.Event("evaluations")
			if j.bad != "" && j.c.q.updates() > 0 && j.c.expect(r, 100) == nil {
				continue
			}
			if j.bad != "" {
				t.Violate("goroutine %d, query %d: %s\n%s", i, k, j.bad, j.c.describe(j.c.q.text(nil, nil)))
				return
			}
		}
	}
	if shared {
		t.Event("batches that share a graph")
	} else {
		t.Event("batches")
	}
	t.Sig(fmt.Sprintf("%d/%s", t.index, sig))
}

// mixedChecks are those whose cases c19Mixed runs
var mixedChecks = strings.Fields("C01 C02 C03 C04 C05 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C20 C20 C21 C22 C23 C24 C24 C25 C26 C28 C28")

// c19Mixed runs cases of the other checks, with their monitors, in
// several goroutines at once
func c19Mixed(t *T) {
	r := t.rng
	type job struct {
		id    string
		index int
		t     *T
	}
	newSub := func(id string) *T {
		return &T{prop: props[id], tier: t.tier, seed: t.seed, sub: true, known: t.known, sigs: map[uint64]bool{}, Events: map[string]int{}, out: bufio.NewWriter(io.Discard)}
	}
	// every case runs in two goroutines or more: whatever it writes that
	// is not its own, the other one writes too
	n := 2 + r.Intn(5)
	lockstep := r.Intn(4) > 0
	if lockstep && n > 3 {
		n = 2 // all goroutines run the same cases, in step
	}
	jobs := make([][]*job, n)
	id := ""
	for k := 5 + r.Intn(8); k > 0; k-- {
		if id == "" || r.Intn(3) > 0 {
			id = mixedChecks[r.Intn(len(mixedChecks))]
		}
		index := 1000000 + r.Intn(1000000)
		m := 2
		if lockstep || r.Intn(4) == 0 {
			m = n
		}
		for _, i := range r.Perm(n)[:m] {
			at := len(jobs[i])
			if !lockstep {
				at = r.Intn(len(jobs[i]) + 1)
			}
			jobs[i] = append(jobs[i][:at], append([]*job{{id, index, newSub(id)}}, jobs[i][at:]...)...)
		}
	}
	var groups []*stepGroup
	if lockstep {
		for range jobs[0] {
			groups = append(groups, newStepGroup(n))
		}
		atomic.StoreInt32(&lockstepOn, 1)
		defer atomic.StoreInt32(&lockstepOn, 0)
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	order := make(chan int, 1000)
	for i := range jobs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for k, j := range jobs[i] {
				if lockstep {
					groups[k].run(func() { j.t.runCase(j.index) })
				} else {
					j.t.runCase(j.index)
				}
				order <- i
			}
		}(i)
	}
	close(start)
	wg.Wait()
	close(order)
	sig := ""
	for i := range order {
		sig += strconv.Itoa(i)
	}
	for i := range jobs {
		for _, j := range jobs[i] {
			t.Eval(j.t.Evals)
			t.Skipped += j.t.Skipped
			t.EventN("evaluations", j.t.Evals)
			if len(j.t.beside) == 0 {
				continue
			}
			// alone, in a process of its own
			self, _ := os.Executable()
			out, _ := exec.Command(self, "case", j.id, strconv.FormatInt(t.seed, 10), strconv.Itoa(j.index)).CombinedOutput()
			if !strings.Contains(string(out), `"Kind":"done"`) || strings.Contains(string(out), `"Kind":"violation"`) {
				t.Event("cases that fail alone, too")
				continue
			}
			t.Violate("goroutine %d: case %d of %s, which passes when it runs alone, fails beside others: %s", i, j.index, j.id, j.t.beside[0])
			return
		}
	}
	if lockstep {
		t.Event("batches of mixed cases in lockstep")
	} else {
		t.Event("batches of mixed cases")
	}
	t.Sig(fmt.Sprintf("%d/%s", t.index, sig))
}

// sideJob is what a goroutine does with the API besides queries
type sideJob struct {
	strs    []string
	escaped []string
	g       *MGraph
	pattern string
	targets [][]string // of every node
	rs      []int
	bad     string
}

func newSideJob(r *rand.Rand, g *MGraph) *sideJob {
	s := &sideJob{g: g}
	for i := 1 + r.Intn(4); i > 0; i-- {
		x := hostileString(r)
		if r.Intn(3) == 0 {
			x += strings.Repeat(string(rune('a'+r.Intn(26))), r.Intn(60))
		}
		s.strs = append(s.strs, x)
		s.escaped = append(s.escaped, oc.EscapeStringLiteral(x), oc.EscapeLabelLiteral(x), oc.EscapePropertyKeyLiteral(x))
	}
	q := NewQGen(r, g)
	q.pParam, q.pProp, q.pLabel = 0, 10, 15
	for try := 0; try < 5; try++ {
		p := q.matchPart()
		if len(p.Rels) == 0 || p.hazard() {
			continue
		}
		for i := range p.Nodes {
			p.Nodes[i].Var = ""
		}
		p.Nodes[0].Var = "this"
		p.Nodes[len(p.Nodes)-1].Var = "target"
		p.Parens = 0
		pr := &Printer{}
		pr.part(p)
		s.pattern = Style{}.text(pr.toks)
		for _, id := range g.norder {
			x := &Exec{g: g, env: &Env{g: g}, ord: orders{}, maxRows: 4000}
			rows, err := x.matchPart(p, Row{"this": NodeRef(id)})
			if err != nil {
				s.pattern = ""
				break
			}
			var want []string
			for _, row := range rows {
				want = append(want, fmt.Sprint("node ", int(row["target"].(NodeRef))))
			}
			s.targets = append(s.targets, want)
		}
		break
	}
	for i := r.Intn(6); i > 0; i-- {
		s.rs = append(s.rs, r.Intn(3))
	}
	return s
}

// run does the job; the graph is built unless one is shared
func (s *sideJob) run(shared *RealGraph) string {
	for i, x := range s.strs {
		for k, f := range []func(string) string{oc.EscapeStringLiteral, oc.EscapeLabelLiteral, oc.EscapePropertyKeyLiteral} {
			if got := f(x); got != s.escaped[3*i+k] {
				return fmt.Sprintf("escaping %q gives %q while other goroutines run, and %q alone", x, got, s.escaped[3*i+k])
			}
		}
	}
	real := shared
	if real == nil {
		real = s.g.build()
	}
	if s.pattern != "" {
		pp, err := oc.ParsePatternExpr(s.pattern)
		if err != nil {
			return fmt.Sprintf("ParsePatternExpr(%q): %v", s.pattern, err)
		}
		for i, id := range s.g.norder {
			nodes, err := pp.FindRelative(real.nodes[id])
			if err != nil {
				return fmt.Sprintf("FindRelative(%q): %v", s.pattern, err)
			}
			var got []string
			for _, nd := range nodes {
				k, ok := real.nodeID[nd]
				if !ok {
					k = -1
				}
				got = append(got, fmt.Sprint("node ", k))
			}
			if d := diffBags(s.targets[i], got, "target"); d != "" {
				return fmt.Sprintf("FindRelative(%q) from node %d: %s\n%s", s.pattern, id, d, s.g)
			}
		}
	}
	a, b := oc.NewResultSet(), oc.NewResultSet()
	distinct := map[int]bool{}
	for i, x := range s.rs {
		row := map[string]oc.Value{"x": oc.ValueOf(x)}
		if i%2 == 0 {
			a.Append(row)
		} else {
			b.Append(row)
		}
		distinct[x] = true
	}
	if err := a.Union(*b, false); err != nil || len(a.Rows) != len(distinct) {
		return fmt.Sprintf("the union of %v has %d rows, %v", s.rs, len(a.Rows), err)
	}
	return ""
}

// ---- C21

func c21(t *T) {
	r := t.rng
	gg := GraphGen{rng: r, nMin: 1, nMax: 7, eMax: 12, loops: true}
	q := NewQGen(r, gg.gen())
	q.maxRels = 1 + r.Intn(4)
	q.pLabel = 25
	q.pProp = 15
	q.pParam = 0
	q.pType = 35
	q.pVarLen = 15
	q.pUndirected = 30
	p := q.matchPart()
	for len(p.Rels) == 0 && r.Intn(8) > 0 {
		p = q.matchPart()
	}
	for i := range p.Nodes {
		p.Nodes[i].Var = ""
		if r.Intn(6) == 0 {
			p.Nodes[i].Var = "other" + strconv.Itoa(i)
		}
		if p.Nodes[i].Props != nil && p.Nodes[i].Props.Param != "" {
			p.Nodes[i].Props = nil
		}
	}
	for i := range p.Rels {
		if r.Intn(2) == 0 {
			p.Rels[i].Var = ""
		}
		if p.Rels[i].Props != nil && p.Rels[i].Props.Param != "" {
			p.Rels[i].Props = nil
		}
	}
	n := len(p.Nodes)
	p.Nodes[0].Var = "this"
	target := n - 1
	if r.Intn(4) == 0 {
		target = r.Intn(n)
	}
	if target > 0 {
		p.Nodes[target].Var = "target"
	}
	if n > 2 && target > 0 && r.Intn(6) == 0 {
		// through this again, or the target twice
		k := 1 + r.Intn(n-1)
		p.Nodes[k].Var = []string{"this", "target"}[r.Intn(2)]
	}
	p.Parens = 0
	if p.hazard() {
		t.Skip()
		return
	}
	pr := &Printer{}
	pr.part(p)
	text := Style{}.text(pr.toks)
	if r.Intn(2) == 0 {
		text = Style{r}.text(pr.toks)
	}
	real := q.g.build()
	before := real.rawText()
	var pp oc.PatternPart
	var err error
	if pa := protect(func() { pp, err = oc.ParsePatternExpr(text) }); pa != "" || err != nil {
		t.Violate("ParsePatternExpr(%q): %v %s", text, err, pa)
		return
	}
	ids := append([]int{}, q.g.norder...)
	ids = append(ids, ids[r.Intn(len(ids))])
	r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	for _, id := range ids {
		x := &Exec{g: q.g, env: &Env{g: q.g}, ord: orders{}, maxRows: 4000}
		rows, err := x.matchPart(p, Row{"this": NodeRef(id)})
		if err != nil {
			t.Skip()
			return
		}
		var want, got []string
		for _, row := range rows {
			if v, ok := row["target"]; ok {
				want = append(want, fmt.Sprint("node ", int(v.(NodeRef))))
			}
		}
		var nodes []*lpg.Node
		var ferr error
		inStep()
		if pa := protect(func() { nodes, ferr = pp.FindRelative(real.nodes[id]) }); pa != "" || ferr != nil {
			t.Violate("FindRelative(%q) from node %d: %v %s\n%s", text, id, ferr, pa, q.g)
			return
		}
		for _, nd := range nodes {
			k, ok := real.nodeID[nd]
			if !ok {
				k = -1
			}
			got = append(got, fmt.Sprint("node ", k))
		}
		t.Eval(1)
		t.EventN("targets", len(nodes))
		if d := diffBags(want, got, "target"); d != "" {
			t.Violate("FindRelative(%q) from node %d: %s\n%s", text, id, d, q.g)
			return
		}
	}
	if a := real.rawText(); a != before {
		t.Violate("FindRelative(%q) changed the graph\n%s", text, q.g)
		return
	}
	t.Sig(text + " " + q.g.String())
}

// ---- C23

// native makes a random value of a native type, and what it is as a
// model value
func native(r *rand.Rand, depth int) (interface{}, V) {
	n := 20
	if depth <= 0 {
		n = 16
	}
	small := r.Intn(200) - 100
	switch r.Intn(n) {
	case 0:
		return int8(small), small
	case 1:
		x := int16(r.Intn(1<<16) - 1<<15)
		return x, int(x)
	case 2:
		x := int32(r.Uint32())
		return x, int(x)
	case 3:
		x := int64(r.Uint64())
		return x, int(x)
	case 4:
		x := int(r.Uint64())
		return x, x
	case 5:
		x := uint8(r.Intn(256))
		return x, int(x)
	case 6:
		x := uint16(r.Intn(1 << 16))
		return x, int(x)
	case 7:
		x := r.Uint32()
		return x, int(x)
	case 8:
		x := r.Uint64() >> 1
		if r.Intn(4) == 0 {
			x = math.MaxInt64
		}
		return x, int(x)
	case 9:
		x := uint(r.Uint64() >> 1)
		if r.Intn(4) == 0 {
			x = math.MaxInt64
		}
		return x, int(x)
	case 10:
		x := float32(r.NormFloat64() * 1000)
		if r.Intn(3) == 0 {
			x = []float32{0.1, 1.5, 3e38, 1e-45, 16777217, -0.3}[r.Intn(6)]
		}
		return x, float64(x)
	case 11:
		x := r.NormFloat64() * 1e6
		return x, x
	case 12:
		return r.Intn(2) == 0, nil
	case 13:
		s := hostileString(r)
		return s, s
	case 14:
		if r.Intn(2) == 0 {
			return nil, nil
		}
		g := NewEGen(r)
		v := g.genValue([]Ty{TDate, TLT, TLDT, TDur}[r.Intn(4)])
		return goTemporal(v), v
	case 15:
		return true, true
	case 16:
		n, _ := many(r, r.Intn(4))
		x := make([]string, n)
		l := List{}
		for i := range x {
			x[i] = genStr(r)
			l = append(l, x[i])
		}
		return x, l
	case 17:
		n, _ := many(r, r.Intn(4))
		if n > 4 {
			n *= 2
		}
		x := make([]int, n)
		l := List{}
		for i := range x {
			x[i] = int(r.Uint64())
			l = append(l, x[i])
		}
		return x, l
	case 18:
		n, _ := many(r, r.Intn(4))
		x := make([]interface{}, n)
		l := List{}
		for i := range x {
			a, b := nativeV(r, depth-1)
			x[i] = a
			l = append(l, b)
		}
		return x, l
	default:
		x := map[string]interface{}{}
		m := Map{}
		n, large := many(r, r.Intn(4))
		for i := n; i > 0; i-- {
			k := []string{"a", "B", "key with space", "日", "x"}[r.Intn(5)]
			if large {
				k = "k" + strconv.Itoa(i)
			}
			a, b := nativeV(r, depth-1)
			x[k], m[k] = a, b
		}
		return x, m
	}
}

func nativeV(r *rand.Rand, depth int) (interface{}, V) {
	a, b := native(r, depth)
	if x, ok := a.(bool); ok {
		b = x
	}
	return a, b
}

// typeOK walks over a result value
func typeOK(x interface{}, depth int) string {
	if depth > 40 {
		return "too deep"
	}
	switch v := x.(type) {
	case nil, int, float64, bool, string, oc.Duration, oc.Date, oc.LocalTime, oc.LocalDateTime, *lpg.Node, *lpg.Edge, *lpg.Path, []*lpg.Edge, lpg.StringSet:
		return ""
	case []oc.Value:
		for i, e := range v {
			if e == nil {
				return fmt.Sprintf("a nil Value at index %d", i)
			}
			if s := typeOK(e.Get(), depth+1); s != "" {
				return s
			}
		}
		return ""
	case map[string]oc.Value:
		for k, e := range v {
			if e == nil {
				return "a nil Value at key " + k
			}
			if s := typeOK(e.Get(), depth+1); s != "" {
				return s
			}
		}
		return ""
	}
	return fmt.Sprintf("a %T", x)
}

// c23Values: ValueOf, and the functions that look at values
func c23Values(t *T, a interface{}, v V, b interface{}, w V, real *RealGraph) bool {
	r := t.rng
	bad := ""
	p := protect(func() {
		x := oc.ValueOf(a)
		if c := canonReal(x, real); c != canon(v, nil) {
			bad = fmt.Sprintf("ValueOf gives %s", c)
			return
		}
		if x.IsConst() {
			bad = "ValueOf gives a constant"
			return
		}
		if y, err := x.Evaluate(nil); err != nil || canonReal(y, real) != canon(v, nil) {
			bad = "the value does not evaluate to itself"
			return
		}
		wantI, isI := v.(int)
		wantS, isS := v.(string)
		wantB, isB := v.(bool)
		own := errors.New("own error")
		if i, err := oc.ValueAsInt(x); isI && (err != nil || i != wantI) || !isI && err != oc.ErrIntValueRequired {
			bad = fmt.Sprintf("ValueAsInt gives %v, %v", i, err)
			return
		}
		if s, err := oc.ValueAsString(x); isS && (err != nil || s != wantS) || !isS && err != oc.ErrStringValueRequired {
			bad = fmt.Sprintf("ValueAsString gives %q, %v", s, err)
			return
		}
		// an error that is passed through
		if _, err := oc.ValueAsInt(x, own); err != own {
			bad = fmt.Sprintf("ValueAsInt with an error gives the error %v", err)
			return
		}
		if _, err := oc.ValueAsString(x, own); err != own {
			bad = fmt.Sprintf("ValueAsString with an error gives the error %v", err)
			return
		}
		if i, err := oc.ValueAsInt(x, nil); isI != (err == nil) || isI && i != wantI {
			bad = fmt.Sprintf("ValueAsInt with a nil error gives %v, %v", i, err)
			return
		}
		if s, err := oc.ValueAsString(x, nil); isS != (err == nil) || isS && s != wantS {
			bad = fmt.Sprintf("ValueAsString with a nil error gives %q, %v", s, err)
			return
		}
		if y, ok := oc.ValueAsBool(x); ok != isB || y != wantB {
			bad = fmt.Sprintf("ValueAsBool gives %v, %v", y, ok)
			return
		}
		prim := true
		switch v.(type) {
		case nil, List, Map:
			prim = false
		}
		if oc.IsValuePrimitive(x) != prim {
			bad = fmt.Sprintf("IsValuePrimitive is %v", !prim)
			return
		}
		l := oc.NewLValue(x)
		if c := canonReal(l, real); c != canon(v, nil) || l.IsConst() {
			bad = fmt.Sprintf("NewLValue has %s", c)
			return
		}
		l2 := oc.NewLValue(l)
		l.Set(oc.ValueOf(b).Get())
		if c := canonReal(l, real); c != canon(w, nil) || canonReal(l2, real) != c {
			bad = fmt.Sprintf("after Set(%#v) there is %s", b, c)
			return
		}
		if c := canonReal(x, real); c != canon(v, nil) {
			bad = fmt.Sprintf("Set of an LValue changed the value it was made of to %s", c)
		}
	})
	t.Eval(1)
	t.Event("values looked at")
	if p+bad != "" {
		t.Violate("%s%s\nvalue: %#v", p, bad, a)
		return false
	}
	if r.Intn(4) > 0 {
		return true
	}
	// there is no value for what does not fit: anything but another number
	var big interface{} = uint64(math.MaxInt64) + 1 + uint64(r.Int63())
	if r.Intn(2) == 0 {
		big = uint(big.(uint64))
	}
	g := lpg.NewGraph()
	g.NewNode(nil, map[string]interface{}{"p": big})
	o := runText("MATCH (n) RETURN n.p", oc.NewEvalContext(g))
	t.Event("integers that do not fit")
	if o.Panic != "" || o.Err == nil {
		o.canonRows(real)
		t.Violate("a property with %v: an error was expected, got %s", big, o)
		return false
	}
	return true
}

func c23(t *T) {
	r := t.rng
	a, v := nativeV(r, 3)
	b, w := nativeV(r, 3)
	g := lpg.NewGraph()
	n := g.NewNode([]string{"A"}, map[string]interface{}{"p": a, "q": b})
	m := g.NewNode([]string{"B"}, nil)
	e := g.NewEdge(n, m, "R", map[string]interface{}{"p": a})
	real := &RealGraph{g: g, nodes: map[int]*lpg.Node{0: n, 1: m}, edges: map[int]*lpg.Edge{0: e}, nodeID: map[*lpg.Node]int{n: 0, m: 1}, edgeID: map[*lpg.Edge]int{e: 0}}
	desc := fmt.Sprintf("p: %#v, q: %#v", a, b)
	if r.Intn(3) == 0 && !c23Values(t, a, v, b, w, real) {
		return
	}
	newCtx := func() *oc.EvalContext {
		c := oc.NewEvalContext(g)
		c.SetParameter("$p", oc.ValueOf(a))
		c.SetParameter("$q", oc.ValueOf(b))
		c.SetVar("vp", oc.ValueOf(a))
		return c
	}
	list := func(xs ...V) V { return List(xs) }
	type use struct {
		text string
		want V
	}
	first := func(x V, i int) V {
		if l, ok := x.(List); ok && i < len(l) {
			return l[i]
		}
		return nil
	}
	uses := []use{
		{"MATCH (n:A) RETURN n.p", v},
		{"MATCH (n:A) RETURN [n.p, n.q, $p]", list(v, w, v)},
		{"MATCH (n:A) RETURN {a: n.p, b: [$q]}", Map{"a": v, "b": List{w}}},
		{"MATCH (n:A)-[r]->() RETURN r.p", v},
		{"RETURN $p", v},
		{"RETURN vp", v},
		{"RETURN [$p, [vp, {x: $q}]]", list(v, List{v, Map{"x": w}})},
		{"RETURN {p: $p}.p", v},
		{"RETURN [vp][0]", v},
		{"RETURN CASE WHEN TRUE THEN $p ELSE $q END", v},
		{"MATCH (n:A) RETURN CASE WHEN FALSE THEN 1 ELSE n.p END", v},
		{"MATCH (n:A) RETURN DISTINCT n.p", v},
		{"MATCH (n:A) RETURN n.p ORDER BY n.x", v},
		{"RETURN $p UNION RETURN $p", v},
		{"MATCH (n:A) RETURN [1] + [n.p]", list(1, v)},
		{"MATCH (n:A) RETURN n.p IS NULL", v == nil},
	}
	switch x := v.(type) {
	case List:
		uses = append(uses, use{"MATCH (n:A) RETURN n.p[0]", first(v, 0)}, use{"RETURN $p[0]", first(v, 0)}, use{"RETURN vp[0..]", v}, use{"MATCH (n:A) RETURN n.p + $p", append(append(List{}, x...), x...)}, use{"MATCH (n:A) RETURN size(n.p)", len(x)})
	case Map:
		uses = append(uses, use{"MATCH (n:A) RETURN n.p.a", x["a"]}, use{"RETURN $p.`key with space`", x["key with space"]}, use{"RETURN vp.x", x["x"]})
	case int:
		if x > math.MinInt64/2 && x < math.MaxInt64/2 {
			uses = append(uses, use{"MATCH (n:A) RETURN n.p + 1", x + 1}, use{"RETURN $p - $p", 0}, use{"MATCH (n:A)-[r]->() RETURN n.p = r.p", true}, use{"RETURN -vp", -x})
		}
	case float64:
		uses = append(uses, use{"MATCH (n:A) RETURN n.p + 0.0", x}, use{"RETURN $p = vp", true}, use{"MATCH (n:A) RETURN n.p <= $p", true})
	case string:
		uses = append(uses, use{"MATCH (n:A) RETURN n.p + 'x'", x + "x"})
	}
	for k := 0; k < 4; k++ {
		u := uses[r.Intn(len(uses))]
		t.Eval(1)
		o := runText(u.text, newCtx())
		if o.Err != nil || o.Panic != "" {
			t.Violate("%s: %s\n%s", u.text, o, desc)
			return
		}
		if len(o.RS.Rows) != 1 {
			t.Violate("%s: %d rows\n%s", u.text, len(o.RS.Rows), desc)
			return
		}
		x := o.RS.Rows[0]["1"]
		if x == nil {
			t.Violate("%s: the value is a nil Value\n%s", u.text, desc)
			return
		}
		if s := typeOK(x.Get(), 0); s != "" {
			t.Violate("%s: the result has %s\n%s", u.text, s, desc)
			return
		}
		t.Event("values")
		if c, d := canon(u.want, nil), canonReal(x, real); c != d {
			t.Violate("%s: expected %s, got %s\n%s", u.text, c, d, desc)
			return
		}
		t.Sig(u.text + " " + desc)
	}
	// store it, and read it back
	s := []string{
		"MATCH (n:A), (m:B) SET m.s = n.p, m.t = $p",
		"MATCH (n:A), (m:B) SET m = {s: n.p, t: vp}",
		"MATCH (n:A), (m:B) SET m += {s: $p, t: [n.p][0]}",
		"MATCH (n:A)-[r]->(m:B) SET m.s = r.p SET m.t = m.s",
	}[r.Intn(4)]
	read := "MATCH (m:B) RETURN [m.s, m.t]"
	if r.Intn(2) == 0 {
		s = "MATCH (n:A) CREATE (:C {s: n.p, t: $p})"
		read = "MATCH (m:C) RETURN [m.s, m.t]"
	}
	if o := runText(s, newCtx()); o.Err != nil || o.Panic != "" {
		t.Violate("%s: %s\n%s", s, o, desc)
		return
	}
	t.Eval(1)
	o := runText(read, newCtx())
	o.canonRows(real)
	if o.Err != nil || o.Panic != "" || len(o.Rows) != 1 || o.Rows[0] != modelRow(Row{"1": List{v, v}}, nil) {
		t.Violate("%s, then %s: expected %s, got %s\n%s", s, read, modelRow(Row{"1": List{v, v}}, nil), o, desc)
		return
	}
	if z := typeOK(o.RS.Rows[0]["1"].Get(), 0); z != "" {
		t.Violate("%s, then %s: the result has %s\n%s", s, read, z, desc)
		return
	}
	// the original is as it was
	if p, _ := n.GetProperty("p"); rawValue(p, real) != rawValue(a, real) && v != nil {
		t.Violate("%s changed the property it read: %#v\n%s", s, p, desc)
	}
	t.Event("stored and read")
}

// ---- C26

func c26(t *T) {
	r := t.rng
	mg := NewMGraph()
	n0, n1 := mg.addNode(nil, nil), mg.addNode([]string{"A"}, nil)
	mg.addEdge(n0.id, n1.id, "R", nil)
	mg.addEdge(n1.id, n0.id, "R", nil)
	mg.addEdge(n0.id, n1.id, "R", nil)
	real := mg.build()
	pool := c26Pool(r, real)
	real.opaque = edgeKey(real)
	plain := []V{nil, 1, 1, 2, 1.0, "a", "a", "1", true, List{1, "a"}, List{1}, List{}, Map{"k": 1}, Map{"k": 2}, Map{}, NodeRef(0), NodeRef(1), RDate{2020, 1, 31}, RDur{1, 2, 3, 4}, List{nil}, Map{"k": nil}}
	pool = append(pool, plain...)
	cols := []string{"a", "b", "1", "with space"}
	for k := 0; k < 3; k++ {
		// IsValueSame itself
		a, b := pool[r.Intn(len(pool))], pool[r.Intn(len(pool))]
		if r.Intn(3) == 0 {
			a, b = List{1, a}, List{1, b}
		}
		if r.Intn(3) == 0 {
			a, b = Map{"k": a}, Map{"k": b}
		}
		x, y := toValue(a, real), toValue(b, real)
		want := eqKey(a) == eqKey(b)
		inStep()
		if oc.IsValueSame(x, y) != want || oc.IsValueSame(y, x) != want || !oc.IsValueSame(x, toValue(a, real)) {
			t.Violate("IsValueSame(%s, %s) is %v, reversed %v, expected %v; the first with itself: %v", canon(a, nil), canon(b, nil), oc.IsValueSame(x, y), oc.IsValueSame(y, x), want, oc.IsValueSame(x, toValue(a, real)))
			return
		}
		t.Event("IsValueSame")
	}
	genRow := func(cs []string) Row {
		row := Row{}
		for _, c := range cs {
			row[c] = pool[r.Intn(len(pool))]
		}
		return row
	}
	toReal := func(row Row) map[string]oc.Value {
		m := map[string]oc.Value{}
		for k, v := range row {
			m[k] = toValue(v, real)
		}
		return m
	}
	type set struct {
		rs   oc.ResultSet
		rows []Row
		cols []string
		ever []Row // rows that were added
	}
	var sets []*set
	var log []string
	fail := func(format string, a ...interface{}) {
		t.Violate(format+"\n%s", append(a, strings.Join(log, "\n"))...)
	}
	texts := func(rows []Row) []string {
		var out []string
		for _, x := range rows {
			out = append(out, modelRow(x, nil))
		}
		return out
	}
	same := func(i int, s *set) bool {
		var got []string
		for _, x := range s.rs.Rows {
			got = append(got, realRow(x, real))
		}
		if a, b := strings.Join(texts(s.rows), " / "), strings.Join(got, " / "); a != b {
			fail("result set %d: expected the rows %s, got %s", i, a, b)
			return false
		}
		if a, b := strings.Join(s.cols, ","), strings.Join(s.rs.Cols, ","); a != b {
			fail("result set %d: expected the columns %s, got %s", i, a, b)
			return false
		}
		return true
	}
	for i := 0; i < 2+r.Intn(2); i++ {
		s := &set{rs: *oc.NewResultSet()}
		cs := append([]string{}, cols[:r.Intn(4)]...)
		s.cols = cs
		s.rs.Cols = append([]string{}, cs...)
		cnt, large := many(r, r.Intn(5))
		if large {
			cs = append(cs, "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9")[:len(cs)+r.Intn(10)]
			s.cols = cs
			s.rs.Cols = append([]string{}, cs...)
		}
		for n := cnt; n > 0; n-- {
			row := genRow(cs)
			if len(s.rows) > 0 && r.Intn(3) == 0 {
				row = s.rows[r.Intn(len(s.rows))]
			}
			s.rows = append(s.rows, row)
			s.ever = append(s.ever, row)
			inStep()
			if err := s.rs.Append(toReal(row)); err != nil {
				fail("Append: %v", err)
				return
			}
		}
		log = append(log, fmt.Sprintf("set %d: %s", i, strings.Join(texts(s.rows), " / ")))
		sets = append(sets, s)
	}
	key := func(x Row) string { return rowKey(x, eqKey) }
	for step := 0; step < 3+r.Intn(5); step++ {
		i, j := r.Intn(len(sets)), r.Intn(len(sets))
		s, o := sets[i], sets[j]
		t.Eval(1)
		switch r.Intn(7) {
		case 0:
			row := genRow(s.cols)
			log = append(log, fmt.Sprintf("%d.Append(%s)", i, modelRow(row, nil)))
			s.rs.Append(toReal(row))
			s.rows = append(s.rows, row)
			s.ever = append(s.ever, row)
			t.Event("Append")
		case 1:
			if i == j {
				continue
			}
			log = append(log, fmt.Sprintf("%d.Add(%d)", i, j))
			inStep()
			s.rs.Add(o.rs)
			s.rows = append(append([]Row{}, s.rows...), o.rows...)
			s.ever = append(append([]Row{}, s.ever...), o.ever...)
			t.Event("Add")
		case 2, 3:
			all := r.Intn(2) == 0
			log = append(log, fmt.Sprintf("%d.Union(%d, %v)", i, j, all))
			src := append([]Row{}, o.rows...)
			s.ever = append(append([]Row{}, s.ever...), src...)
			inStep()
			if err := s.rs.Union(o.rs, all); err != nil {
				fail("Union: %v", err)
				return
			}
			if all {
				s.rows = append(append([]Row{}, s.rows...), src...)
			} else {
				// one of each: which of 1 and 1.0 is kept is not specified
				count := map[string]int{}
				for _, x := range append(append([]Row{}, s.rows...), src...) {
					count[key(x)] = 1
				}
				var got []Row
				have := map[string]int{}
				for _, x := range s.rs.Rows {
					row := Row{}
					for k, v := range x {
						row[k] = fromReal(v, real)
					}
					got = append(got, row)
					have[key(row)]++
				}
				for k := range count {
					if have[k] != 1 {
						fail("Union: %d rows %s, expected 1", have[k], k)
						return
					}
				}
				if len(have) != len(count) {
					fail("Union: %d distinct rows, expected %d", len(have), len(count))
					return
				}
				s.rows = got
			}
			t.Event("Union")
		case 4:
			c := cols[r.Intn(len(cols))]
			log = append(log, fmt.Sprintf("%d.Column(%q)", i, c))
			var want, got []string
			for _, x := range s.rows {
				if v, ok := x[c]; ok {
					want = append(want, canon(v, nil))
				}
			}
			for _, v := range s.rs.Column(c) {
				got = append(got, canonReal(v, real))
			}
			if strings.Join(want, " / ") != strings.Join(got, " / ") {
				fail("Column(%q) of set %d: expected %v, got %v", c, i, want, got)
				return
			}
			t.Event("Column")
		case 5:
			// all combinations of the values of the columns
			uniform := true
			for _, x := range s.rows {
				uniform = uniform && len(x) == len(s.rows[0])
				for k := range x {
					_, ok := s.rows[0][k]
					uniform = uniform && ok
				}
			}
			total := 1
			if len(s.rows) > 0 {
				for range s.rows[0] {
					if total <= 3000 {
						total *= len(s.rows)
					}
				}
			}
			if !uniform || total > 3000 {
				continue
			}
			combos := []Row{{}}
			if len(s.rows) == 0 {
				combos = nil
			} else {
				for k := range s.rows[0] {
					var next []Row
					for _, c := range combos {
						for _, x := range s.rows {
							n := cloneRow(c)
							n[k] = x[k]
							next = append(next, n)
						}
					}
					combos = next
				}
			}
			stop := -1
			if r.Intn(3) == 0 && len(combos) > 0 {
				stop = r.Intn(len(combos))
			}
			log = append(log, fmt.Sprintf("%d.CartesianProduct, stop at %d", i, stop))
			var got []string
			calls := 0
			inStep()
			ret := s.rs.CartesianProduct(func(m map[string]oc.Value) bool {
				got = append(got, realRow(m, real))
				calls++
				return calls-1 != stop
			})
			if stop >= 0 {
				if ret || calls != stop+1 {
					fail("CartesianProduct: f returned false in call %d, there were %d calls, the result is %v", stop+1, calls, ret)
					return
				}
				if d := subBag(texts(combos), got); d != "" {
					fail("CartesianProduct of set %d: %s", i, d)
					return
				}
			} else {
				if d := diffBags(texts(combos), got, "combination"); d != "" || !ret {
					fail("CartesianProduct of set %d: %s %v", i, d, ret)
					return
				}
			}
			t.Event("CartesianProduct of columns")
		case 6:
			var args []oc.ResultSet
			var which []int
			combos := []Row{{}}
			all := r.Intn(2) == 0
			for n := r.Intn(4); n > 0; n-- {
				k := r.Intn(len(sets))
				if len(combos)*len(sets[k].rows) > 400 {
					continue
				}
				args = append(args, sets[k].rs)
				which = append(which, k)
				var next []Row
				for _, c := range combos {
					for _, x := range sets[k].rows {
						m := cloneRow(c)
						for kk, v := range x {
							m[kk] = v
						}
						next = append(next, m)
					}
				}
				if len(sets[k].rows) == 0 && all {
					next = combos
				}
				combos = next
			}
			mod := 1 + r.Intn(3)
			keep := func(text string) bool { return len(text)%mod == 0 }
			log = append(log, fmt.Sprintf("%d = CartesianProduct(%v, %v, size %% %d)", len(sets), which, all, mod))
			var want []Row
			for _, c := range combos {
				if keep(modelRow(c, nil)) {
					want = append(want, c)
				}
			}
			inStep()
			res := oc.CartesianProduct(args, all, func(m map[string]oc.Value) bool { return keep(realRow(m, real)) })
			var got []string
			for _, x := range res.Rows {
				got = append(got, realRow(x, real))
			}
			if d := diffBags(texts(want), got, "row"); d != "" {
				fail("CartesianProduct(%v): %s", which, d)
				return
			}
			t.Event("CartesianProduct of result sets")
			// its rows are its own
			for _, x := range res.Rows {
				x["added"] = oc.ValueOf("harness")
				for k := range x {
					x[k] = oc.ValueOf("harness")
				}
			}
		}
		for k, x := range sets {
			if !same(k, x) {
				return
			}
		}
	}
	// nodes and relationships of the rows
	for i, s := range sets {
		for _, x := range []struct {
			rows []Row
			must bool
		}{{s.rows, true}, {s.ever, false}} {
			ns, es := map[*lpg.Node]bool{}, map[*lpg.Edge]bool{}
			for _, row := range x.rows {
				for _, v := range row {
					switch y := toValue(v, real).Get().(type) {
					case *lpg.Node:
						ns[y] = true
					case *lpg.Edge:
						es[y] = true
					case []*lpg.Edge:
						for _, e := range y {
							es[e] = true
						}
					case *lpg.Path:
						// either way
						if !x.must {
							for k := 0; k < y.NumEdges(); k++ {
								es[y.GetEdge(k)] = true
							}
							for k := 0; k < y.NumNodes(); k++ {
								ns[y.GetNode(k)] = true
							}
						}
					}
				}
			}
			hn, he := map[*lpg.Node]bool{}, map[*lpg.Edge]bool{}
			for _, n := range s.rs.Nodes.Slice() {
				hn[n] = true
			}
			for _, e := range s.rs.Edges.Slice() {
				he[e] = true
			}
			an, ae, bn, be := ns, es, hn, he
			if !x.must {
				an, ae, bn, be = hn, he, ns, es
			}
			for n := range an {
				if !bn[n] {
					fail("result set %d: Nodes has %d nodes, a node is missing or foreign (%v)", i, len(hn), x.must)
					return
				}
			}
			for e := range ae {
				if !be[e] {
					fail("result set %d: Edges has %d relationships, one is missing or foreign (%v)", i, len(he), x.must)
					return
				}
			}
		}
	}
	t.Sig(strings.Join(log, "; "))
}

// c26Pool has relationships, lists of them, paths, string sets and
// temporal values, which are alike in some respects
func c26Pool(r *rand.Rand, real *RealGraph) []V {
	e := make([]*lpg.Edge, 0)
	n := make([]*lpg.Node, 0)
	for id := 0; id < 8; id++ {
		if x, ok := real.edges[id]; ok {
			e = append(e, x)
		}
		if x, ok := real.nodes[id]; ok {
			n = append(n, x)
		}
	}
	key := edgeKey(real)
	op := func(x interface{}) V {
		k, _ := key(x)
		return Opaque{k, x}
	}
	path := func(es ...*lpg.Edge) *lpg.Path {
		return lpg.NewPathFromElements(lpg.NewPathElementsFromEdges(es)...)
	}
	all := []V{
		op(e[0]), op(e[1]), op(e[2]), op([]*lpg.Edge{e[0]}), op([]*lpg.Edge{e[0], e[1]}), op([]*lpg.Edge{e[1], e[0]}), op([]*lpg.Edge{}),
		op(path(e[0])), op(path(e[0])), op(path(e[2])), op(path(e[0], e[1])), op(path(e[0], e[1], e[2])), op(path(e[2], e[1], e[0])), op(lpg.PathFromNode(n[0])), op(lpg.PathFromNode(n[1])),
		op(lpg.NewStringSet("A", "B")), op(lpg.NewStringSet("B", "A")), op(lpg.NewStringSet("A", "C")), op(lpg.NewStringSet("A")), op(lpg.NewStringSet()),
		RDate{2020, 1, 31}, RDate{2020, 1, 30}, RLDT{RDate{2020, 1, 31}, 0}, RLDT{RDate{2020, 1, 31}, 1}, RLT{0}, RLT{1}, RDur{1, 2, 3, 5}, RDur{0, 0, 0, 0}, false, -1, "", "null",
	}
	var out []V
	for i := 3 + r.Intn(6); i > 0; i-- {
		out = append(out, all[r.Intn(len(all))])
	}
	return out
}

// edgeKey gives identities to relationships, lists of them, paths, and
// string sets
func edgeKey(real *RealGraph) func(x interface{}) (string, bool) {
	return func(x interface{}) (string, bool) {
		ids := func(k string, n int, at func(int) *lpg.Edge) string {
			for i := 0; i < n; i++ {
				k += " " + strconv.Itoa(real.edgeID[at(i)])
			}
			return k
		}
		switch y := x.(type) {
		case *lpg.Edge:
			return "edge " + strconv.Itoa(real.edgeID[y]), true
		case []*lpg.Edge:
			return ids("edges", len(y), func(i int) *lpg.Edge { return y[i] }), true
		case *lpg.Path:
			return ids("path "+strconv.Itoa(real.nodeID[y.First()]), y.NumEdges(), y.GetEdge), true
		case lpg.StringSet:
			return fmt.Sprint("set ", y.SortedSlice()), true
		}
		return "", false
	}
}

// fromReal makes a model value of a value
func fromReal(v oc.Value, r *RealGraph) V {
	switch x := v.Get().(type) {
	case *lpg.Node:
		return NodeRef(r.nodeID[x])
	case []oc.Value:
		l := List{}
		for _, e := range x {
			l = append(l, fromReal(e, r))
		}
		return l
	case map[string]oc.Value:
		m := Map{}
		for k, e := range x {
			m[k] = fromReal(e, r)
		}
		return m
	default:
		if r != nil && r.opaque != nil {
			if k, ok := r.opaque(x); ok {
				return Opaque{k, x}
			}
		}
		return fromNative(x)
	}
}
