package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"

	oc "github.com/cloudprivacylabs/opencypher"
)

// Obs is what a run of the interpreter gave
type Obs struct {
	RS    oc.ResultSet
	Val   oc.Value
	Err   error
	Panic string
	Cols  []string
	Rows  []string // canonical
}

func (o *Obs) String() string {
	if o.Panic != "" {
		return "panic: " + o.Panic
	}
	if o.Err != nil {
		return "error: " + o.Err.Error()
	}
	return fmt.Sprintf("%d rows: %s", len(o.Rows), clip(o.Rows))
}

// protect runs f and returns the panic as text
func protect(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			var keep []string
			for _, l := range st {
				if strings.Contains(l, ".go:") && !strings.Contains(l, "/runtime/") {
					keep = append(keep, strings.TrimSpace(l))
				}
			}
			if len(keep) > 6 {
				keep = keep[:6]
			}
			p = fmt.Sprintf("%v [%s]", r, strings.Join(keep, " < "))
		}
	}()
	f()
	return ""
}

// newCtx makes a context with the parameters
func newCtx(r *RealGraph, params map[string]V) (*oc.EvalContext, map[string]oc.Value) {
	ctx := oc.NewEvalContext(r.g)
	vals := map[string]oc.Value{}
	for k, v := range params {
		x := toValue(v, r)
		vals[k] = x
		ctx.SetParameter("$"+k, x)
	}
	return ctx, vals
}

var traceQueries bool

// runText parses and evaluates a query
func runText(text string, ctx *oc.EvalContext) *Obs {
	if traceQueries {
		fmt.Fprintln(os.Stderr, "query:", text)
	}
	o := &Obs{}
	o.Panic = protect(func() {
		if inStep() {
			e, err := oc.Parse(text)
			if err != nil {
				o.Err = err
				return
			}
			inStep()
			v, err := e.Evaluate(ctx)
			o.take(v, err)
			return
		}
		v, err := oc.ParseAndEvaluate(text, ctx)
		o.take(v, err)
	})
	return o
}

func runParsed(e oc.Evaluatable, ctx *oc.EvalContext) *Obs {
	o := &Obs{}
	o.Panic = protect(func() {
		inStep()
		v, err := e.Evaluate(ctx)
		o.take(v, err)
	})
	return o
}

func (o *Obs) take(v oc.Value, err error) {
	o.Val, o.Err = v, err
	if err != nil {
		return
	}
	rs, ok := v.Get().(oc.ResultSet)
	if !ok {
		o.Err = fmt.Errorf("harness: the result is a %T, not a ResultSet", v.Get())
		o.Panic = o.Err.Error()
		return
	}
	o.RS = rs
	o.Cols = rs.Cols
}

// canonRows computes the canonical rows of the observed result
func (o *Obs) canonRows(r *RealGraph) {
	if o.Panic != "" || o.Err != nil {
		return
	}
	o.Rows = nil
	o.Panic = protect(func() {
		for _, row := range o.RS.Rows {
			o.Rows = append(o.Rows, realRow(row, r))
		}
	})
}

func realRow(row map[string]oc.Value, r *RealGraph) string {
	ks := make([]string, 0, len(row))
	for k := range row {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	parts := make([]string, 0)
	for _, k := range ks {
		parts = append(parts, k+"="+canonReal(row[k], r))
	}
	return strings.Join(parts, "; ")
}

func modelRow(row Row, n namer) string {
	ks := make([]string, 0, len(row))
	for k := range row {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	parts := make([]string, 0)
	for _, k := range ks {
		parts = append(parts, k+"="+canon(row[k], n))
	}
	return strings.Join(parts, "; ")
}

// hasLazy: labels() has no specified order
func hasLazy(v V) bool {
	switch t := v.(type) {
	case lazySet:
		return true
	case List:
		for _, x := range t {
			if hasLazy(x) {
				return true
			}
		}
	case Map:
		for _, x := range t {
			if hasLazy(x) {
				return true
			}
		}
	}
	return false
}

// compareResult compares an expected result to the observed rows
func compareResult(exp *Result, o *Obs, n namer) string {
	if exp.Ret == nil && len(exp.Rows) == 0 && exp.Cols == nil {
		if len(o.Rows) != 0 {
			return fmt.Sprintf("no rows expected, got %s", o)
		}
		return ""
	}
	if exp.Cols != nil {
		if strings.Join(exp.Cols, "\x00") != strings.Join(o.Cols, "\x00") {
			return fmt.Sprintf("columns %v expected, got %v", exp.Cols, o.Cols)
		}
	}
	want := make([]string, len(exp.Rows))
	for i, r := range exp.Rows {
		want[i] = modelRow(r, n)
	}
	from, to := exp.window()
	if len(o.Rows) != to-from {
		if from == 0 && to == len(exp.Rows) {
			if d := diffBags(want, o.Rows, "row"); d != "" {
				return d
			}
		}
		return fmt.Sprintf("%d rows expected, got %s", to-from, o)
	}
	if !exp.Ordered {
		if from == 0 && to == len(exp.Rows) {
			return diffBags(want, o.Rows, "row")
		}
		return subBag(want, o.Rows)
	}
	// tie groups
	i := 0
	for i < len(want) {
		j := i + 1
		for j < len(want) {
			c, _ := compareKeys(exp.Keys[i], exp.Keys[j], exp.Ret.Order)
			if c != 0 {
				break
			}
			j++
		}
		a, b := i, j
		if a < from {
			a = from
		}
		if b > to {
			b = to
		}
		if a < b {
			got := o.Rows[a-from : b-from]
			d := ""
			if a == i && b == j {
				d = diffBags(want[i:j], got, "row")
			} else {
				d = subBag(want[i:j], got)
			}
			if d != "" {
				return fmt.Sprintf("rows %d-%d: %s (all: expected %s, got %s)", a, b-1, d, clip(want[from:to]), o)
			}
		}
		i = j
	}
	return ""
}

func subBag(super, sub []string) string {
	m := map[string]int{}
	for _, s := range super {
		m[s]++
	}
	for _, s := range sub {
		if m[s] == 0 {
			return "row not expected, or too often: " + s
		}
		m[s]--
	}
	return ""
}

// hazard: patterns that can run into the path defects of lpg: a
// relationship of variable length with another one to its left
func (p Part) hazard() bool {
	for i, r := range p.Rels {
		if i > 0 && r.Range != nil {
			return true
		}
	}
	return false
}

func (q Query) hazard() bool {
	for _, s := range q.Singles {
		for _, m := range s.Read {
			for _, p := range m.Parts {
				if p.hazard() {
					return true
				}
			}
		}
		for _, u := range s.Upd {
			if m, ok := u.(Merge); ok && m.Part.hazard() {
				return true
			}
		}
	}
	return false
}

// QCase is a query to run against the interpreter and the model
type QCase struct {
	g      *MGraph
	q      Query
	params map[string]V
	vars   map[string]V // of the context
	text   string
	maxRow int
	// optional
	filter bool           // set a property filter
	real   *RealGraph     // the graph to run on; c.g is its model
	parsed oc.Evaluatable // evaluate this instead of the text
	sub    int            // evaluate in a context derived that often from the one with the filter
	consts bool           // parameters are constants
	chain  *rand.Rand     // use a chain of contexts
	fns    map[string]*ufn
}

type outcome struct {
	exec *Exec
	res  *Result
	err  error
	snap *Snapshot
	sig  string
	// calls of the functions that the check registered
	calls []string
}

// model runs the reference interpreter
func (c *QCase) model(rng *rand.Rand) *outcome {
	g := c.g.clone()
	g.markOld()
	x := &Exec{g: g, env: &Env{params: c.params, vars: c.vars, g: g, fns: c.fns}, ord: orders{rng}, maxRows: c.maxRow}
	if c.filter {
		x.filter = modelFilter
	}
	if modelFns != nil {
		modelCalls = nil
	}
	res, err := x.query(c.q)
	o := &outcome{exec: x, res: res, err: err}
	if modelFns != nil {
		o.calls = modelCalls
	}
	if err == nil {
		o.snap = g.snapshot()
		n := snapshotNamer{g, o.snap}
		rows := make([]string, len(res.Rows))
		for i, r := range res.Rows {
			rows[i] = modelRow(r, n)
		}
		sort.Strings(rows)
		o.sig = strings.Join(o.snap.Nodes, "\n") + "\n" + strings.Join(o.snap.Edges, "\n") + "\n" + strings.Join(rows, "\n")
		for _, c := range [][]string{x.filterCalls, o.calls} {
			c = append([]string(nil), c...)
			sort.Strings(c)
			o.sig += "\ncalls: " + strings.Join(c, "\n")
		}
	} else {
		o.sig = "error " + err.Error()
	}
	return o
}

func (q Query) updates() int {
	n := 0
	for _, s := range q.Singles {
		n += len(s.Upd)
	}
	return n
}

// expect computes the outcome, or nil if it is not specified, or
// depends on the order of the rows
func (c *QCase) expect(rng *rand.Rand, tries int) *outcome {
	if c.maxRow == 0 {
		c.maxRow = 3000
	}
	base := c.model(nil)
	if base.err == errUnspec {
		return nil
	}
	if c.q.updates() == 0 {
		return base
	}
	for i := 0; i < tries; i++ {
		o := c.model(rand.New(rand.NewSource(rng.Int63())))
		if o.sig != base.sig {
			return nil
		}
	}
	return base
}

// Verdict of a case
type Verdict struct {
	Skipped bool
	Bad     string
	Exp     *outcome
	Obs     *Obs
	Real    *RealGraph
	Ctx     *oc.EvalContext
	Vals    map[string]oc.Value
	Text    string
	Calls   []string // of the property filter
	// chain of contexts, and their variables before the query
	Chain       []*oc.EvalContext
	ChainBefore []string
}

func (c *QCase) describe(text string) string {
	s := "query: " + text + "\n"
	if c.g != nil && len(c.g.nodes) > 0 {
		s += "graph: " + c.g.String() + "\n"
	}
	for k, v := range c.vars {
		s += "variable " + k + " = " + canon(v, plainNamer{}) + "\n"
	}
	for k, v := range c.params {
		s += "param $" + k + " = " + canon(v, nil) + "\n"
	}
	return s
}

// run decides a case: the interpreter must give the result and leave
// the graph that the reference interpreter does
func (c *QCase) run(rng *rand.Rand) *Verdict {
	v := &Verdict{}
	v.Exp = c.expect(rng, 6)
	if v.Exp == nil {
		v.Skipped = true
		return v
	}
	v.Real = c.real
	if v.Real == nil {
		v.Real = c.g.build()
	}
	if c.chain != nil {
		v.Ctx, v.Chain, v.Vals = ctxChain(c.chain, v.Real, c.params, c.vars)
		for _, x := range v.Chain {
			v.ChainBefore = append(v.ChainBefore, ctxText(x, v.Real))
		}
	} else {
		v.Ctx, v.Vals = newCtx(v.Real, c.params)
	}
	root := v.Ctx
	if c.consts {
		for k, x := range v.Vals {
			rv := x.(oc.RValue)
			rv.Const = true
			v.Ctx.SetParameter("$"+k, rv)
		}
	}
	if c.filter {
		v.Ctx.PropertyValueFromNativeFilter = func(k string, x interface{}) interface{} {
			v.Calls = append(v.Calls, filterCall(k, canonNative(x, v.Real, false)))
			return nativeFilter(k, x)
		}
		for i := 0; i < c.sub; i++ {
			v.Ctx = v.Ctx.SubContext()
		}
	}
	for k, x := range c.vars {
		if c.chain != nil {
			break
		}
		root.SetVar(k, toValue(x, v.Real))
	}
	v.Text = c.text
	if v.Text == "" {
		v.Text = c.q.text(nil, nil)
	}
	if c.parsed != nil {
		v.Obs = runParsed(c.parsed, v.Ctx)
	} else {
		v.Obs = runText(v.Text, v.Ctx)
	}
	c.judge(v)
	if v.Bad != "" && c.q.updates() > 0 && v.Obs.Panic == "" {
		// make sure that it does not depend on the order of rows
		if c.expect(rng, 150) == nil {
			v.Bad = ""
			v.Skipped = true
		}
	}
	return v
}

func (c *QCase) judge(v *Verdict) {
	if v.Obs.Panic != "" {
		if c.q.hazard() && strings.Contains(v.Obs.Panic, "disconnected from path") {
			v.Skipped = true
			return
		}
		v.Bad = v.Obs.String()
		return
	}
	if v.Exp.err != nil {
		if v.Obs.Err == nil {
			v.Obs.canonRows(v.Real)
			v.Bad = "an error was expected, got " + v.Obs.String()
		}
		return
	}
	if v.Obs.Err != nil {
		v.Bad = v.Obs.String()
		return
	}
	v.Bad = protect(func() {
		real := v.Real.snapshot()
		if d := v.Exp.snap.diff(real); d != "" {
			v.Bad = "the graph is wrong: " + d
			return
		}
		v.Obs.canonRows(v.Real)
		if v.Obs.Panic != "" {
			v.Bad = v.Obs.Panic
			return
		}
		v.Bad = compareResult(v.Exp.res, v.Obs, snapshotNamer{v.Exp.exec.g, v.Exp.snap})
		if v.Bad != "" {
			return
		}
		if c.q.updates() > 0 {
			v.Bad = v.Real.consistency(v.Exp.exec.g)
		}
		if c.filter && v.Bad == "" {
			v.Bad = diffBags(v.Exp.exec.filterCalls, v.Calls, "call of the property filter")
		}
	}) + v.Bad
}

// the property filter of the checks, for model values and native ones
func modelFilter(k string, v V) V {
	switch t := v.(type) {
	case int:
		if k == "x" || k == "with space" {
			return t + 10
		}
	case string:
		return t + "~" + k
	case bool:
		return !t
	case float64:
		return "float"
	case List:
		return len(t)
	}
	return v
}

func nativeFilter(k string, v interface{}) interface{} {
	switch t := v.(type) {
	case int:
		if k == "x" || k == "with space" {
			return t + 10
		}
	case string:
		return t + "~" + k
	case bool:
		return !t
	case float64:
		return "float"
	case []oc.Value:
		return len(t)
	case []interface{}:
		return len(t)
	}
	return v
}

func filterCall(k, v string) string { return k + ": " + v }
