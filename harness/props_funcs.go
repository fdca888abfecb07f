package main

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	oc "github.com/cloudprivacylabs/opencypher"
)

func init() {
	register(&Check{ID: "C27", Quick: 9000, Thorough: 150000,
		Rule: "Functions registered by the program (of values and of evaluatables, 0 to any number of arguments, plain, dotted and quoted names) put at random places of random reading and updating queries; results and graphs are compared to a reference that has the same functions, and where each call is due exactly once, the log of the calls that the functions keep is compared as a bag. Counted: distinct (query, graph) pairs.",
		Run:  c27})
}

// ufn is a function that the checks register: what it does in the
// model and in reality
type ufn struct {
	text     string // as in queries
	name     string // as registered
	min, max int
	lazy     bool // registered as a function of Evaluatables
	model    func(env *Env, a []V) (V, error)
	real     func(ctx *oc.EvalContext, a []oc.Value) (oc.Value, error)
}

// the functions of the case, and the log of their calls in the model
var (
	modelFns    map[string]*ufn
	modelCalls  []string
	modelNoFail bool
	modelArity  bool // a call with a wrong number of arguments was evaluated
	errUser     = errors.New("the function failed")
	fnCount     int
)

func callText(name string, args []string) string { return name + "(" + strings.Join(args, ", ") + ")" }

// userCall evaluates a call in the model
func (env *Env) userCall(f *ufn, a []V) (V, error) {
	if len(a) < f.min || (f.max >= 0 && len(a) > f.max) {
		modelArity = true
		return nil, errEval
	}
	args := make([]string, len(a))
	for i := range a {
		args[i] = canon(a[i], nil)
	}
	modelCalls = append(modelCalls, callText(f.name, args))
	return f.model(env, a)
}

// registerFns makes the functions known to the interpreter. Calls go to log
func registerFns(fns []*ufn, log *[]string, real **RealGraph) {
	var all []oc.Function
	for _, f := range fns {
		f := f
		call := func(ctx *oc.EvalContext, a []oc.Value) (oc.Value, error) {
			args := make([]string, len(a))
			for i := range a {
				args[i] = canonReal(a[i], *real)
			}
			*log = append(*log, callText(f.name, args))
			return f.real(ctx, a)
		}
		fn := oc.Function{Name: f.name, MinArgs: f.min, MaxArgs: f.max}
		if f.lazy {
			fn.Func = func(ctx *oc.EvalContext, es []oc.Evaluatable) (oc.Value, error) {
				a := make([]oc.Value, len(es))
				for i := range es {
					v, err := es[i].Evaluate(ctx)
					if err != nil {
						return nil, err
					}
					a[i] = v
				}
				return call(ctx, a)
			}
		} else {
			fn.ValueFunc = call
		}
		all = append(all, fn)
	}
	if len(all)%2 == 0 {
		oc.RegisterGlobalFunc(all...)
		return
	}
	for _, f := range all {
		oc.RegisterGlobalFunc(f)
	}
}

// fresh is the value, but not as a constant
func fresh(v oc.Value) oc.Value { return oc.RValue{Value: v.Get()} }

// fnKit are the functions of a case
type fnKit struct {
	rng  *rand.Rand
	real *RealGraph
	log  []string
	fns  []*ufn
	by   map[string]*ufn
}

func (k *fnKit) add(kind string, min, max int, model func(env *Env, a []V) (V, error), real func(ctx *oc.EvalContext, a []oc.Value) (oc.Value, error)) {
	r := k.rng
	fnCount++
	f := &ufn{min: min, max: max, lazy: r.Intn(3) == 0, model: model, real: real}
	id := fmt.Sprintf("%s%d", kind, fnCount)
	switch r.Intn(6) {
	case 0:
		f.name, f.text = "ns."+id, "ns."+id
	case 1:
		f.name, f.text = "a.b_1.C."+id, "a.b_1.C."+id
	case 2:
		f.name, f.text = "my "+id, "`my "+id+"`"
	case 3:
		f.name, f.text = "é."+id+"-x", "é.`"+id+"-x`"
	default:
		f.name, f.text = id, id
	}
	k.fns = append(k.fns, f)
	k.by[kind] = f
}

func newFnKit(r *rand.Rand) *fnKit {
	k := &fnKit{rng: r, by: map[string]*ufn{}}
	k.add("id", 1, 1, func(env *Env, a []V) (V, error) { return a[0], nil },
		func(ctx *oc.EvalContext, a []oc.Value) (oc.Value, error) { return fresh(a[0]), nil })
	k.add("nth", 2, -1, func(env *Env, a []V) (V, error) {
		i, ok := a[0].(int)
		if !ok || i < 1 || i >= len(a) {
			return nil, errEval
		}
		return a[i], nil
	}, func(ctx *oc.EvalContext, a []oc.Value) (oc.Value, error) {
		i, ok := a[0].Get().(int)
		if !ok || i < 1 || i >= len(a) {
			return nil, errUser
		}
		return fresh(a[i]), nil
	})
	lo := r.Intn(2)
	k.add("lst", lo, lo+3+r.Intn(3), func(env *Env, a []V) (V, error) { return append(List{}, a...), nil },
		func(ctx *oc.EvalContext, a []oc.Value) (oc.Value, error) {
			return oc.RValue{Value: a}, nil
		})
	c := NewEGen(r).genValue(Ty(r.Intn(int(nTypes))))
	if r.Intn(6) == 0 {
		c = nil
	}
	k.add("const", 0, r.Intn(2), func(env *Env, a []V) (V, error) { return cloneV(c), nil },
		func(ctx *oc.EvalContext, a []oc.Value) (oc.Value, error) { return toValue(c, k.real), nil })
	k.add("var", 1, 1, func(env *Env, a []V) (V, error) {
		v, ok := env.lookup(a[0].(string))
		if !ok {
			return nil, errEval
		}
		return cloneV(v), nil
	}, func(ctx *oc.EvalContext, a []oc.Value) (oc.Value, error) {
		v, err := ctx.GetVar(a[0].Get().(string))
		if err != nil {
			return nil, err
		}
		return fresh(v), nil
	})
	k.add("par", 1, 1, func(env *Env, a []V) (V, error) {
		v, ok := env.lookupParam(a[0].(string))
		if !ok {
			return nil, errEval
		}
		return cloneV(v), nil
	}, func(ctx *oc.EvalContext, a []oc.Value) (oc.Value, error) {
		v, err := ctx.GetParameter("$" + a[0].Get().(string))
		if err != nil {
			return nil, err
		}
		return fresh(v), nil
	})
	k.add("fail", 1, 2, func(env *Env, a []V) (V, error) {
		if modelNoFail {
			return nil, nil
		}
		return nil, errEval
	}, func(ctx *oc.EvalContext, a []oc.Value) (oc.Value, error) { return nil, errUser })
	// evaluates queries while the query that has the call is evaluated
	k.add("sub", 1, 1, func(env *Env, a []V) (V, error) {
		n := 0
		for _, x := range env.g.nodes {
			if x != nil {
				n++
			}
		}
		return List{n, a[0]}, nil
	}, func(ctx *oc.EvalContext, a []oc.Value) (oc.Value, error) {
		c := oc.NewEvalContext(k.real.g)
		v, err := oc.ParseAndEvaluate("MATCH (n) RETURN n", c)
		if err != nil {
			return nil, err
		}
		n := len(v.Get().(oc.ResultSet).Rows)
		c = ctx.SubContext()
		c.SetParameter("$subParameter", a[0])
		v, err = oc.ParseAndEvaluate("RETURN $subParameter AS x", c)
		if err != nil {
			return nil, err
		}
		return oc.ValueOf([]oc.Value{oc.ValueOf(n), v.Get().(oc.ResultSet).Rows[0]["x"]}), nil
	})
	registerFns(k.fns, &k.log, &k.real)
	modelFns = map[string]*ufn{}
	for _, f := range k.fns {
		modelFns[f.text] = f
	}
	return k
}

// wrap puts the expression in a call that has its value
func (k *fnKit) wrap(e Expr) Expr {
	r := k.rng
	switch r.Intn(5) {
	case 0:
		n := 1 + r.Intn(3)
		i := 1 + r.Intn(n)
		args := []Expr{Lit{i}}
		for j := 1; j <= n; j++ {
			if j == i {
				args = append(args, e)
			} else {
				args = append(args, k.leaf())
			}
		}
		return Func{k.by["nth"].text, args}
	case 1:
		l := Func{k.by["lst"].text, []Expr{e, k.leaf()}}
		return Index{l, Lit{0}}
	case 2:
		return Func{k.by["id"].text, []Expr{Func{k.by["id"].text, []Expr{e}}}}
	}
	return Func{k.by["id"].text, []Expr{e}}
}

func (k *fnKit) leaf() Expr {
	r := k.rng
	switch r.Intn(5) {
	case 0:
		return Lit{nil}
	case 1:
		return ListE{[]Expr{Lit{1}, Lit{"a"}}}
	case 2:
		return Func{k.by["const"].text, nil}
	case 3:
		return Lit{"s"}
	}
	return Lit{r.Intn(5)}
}

var exprTypes = map[reflect.Type]bool{}

func init() {
	for _, x := range []interface{}{Lit{}, Raw{}, Param{}, Var{}, Prop{}, HasLabels{}, Un{}, Bin{}, Logic{}, Cmp{}, Not{}, IsNull{}, In{}, StrOp{}, Index{}, Slice{}, ListE{}, MapE{}, Case{}, Func{}, Paren{}} {
		exprTypes[reflect.TypeOf(x)] = true
	}
}

// mapExprs is a copy of x (an expression, or a part of a query) with f
// applied to its expressions, inner ones first
func mapExprs(x interface{}, f func(Expr) Expr) interface{} {
	return mapValue(reflect.ValueOf(x), f).Interface()
}

func mapValue(v reflect.Value, f func(Expr) Expr) reflect.Value {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(mapValue(v.Elem(), f))
		return n
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		if m, ok := v.Interface().(*MapE); ok {
			// properties of a pattern: not an expression itself
			c := &MapE{Keys: m.Keys}
			for _, e := range m.Vals {
				c.Vals = append(c.Vals, mapExprs(e, f))
			}
			return reflect.ValueOf(c)
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(mapValue(v.Elem(), f))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(mapValue(v.Index(i), f))
		}
		return n
	case reflect.Struct:
		switch t := v.Interface().(type) {
		case Lit, Raw, Param, Var:
			return reflect.ValueOf(f(t))
		case Delete:
			return v // of elements, not of values
		}
		n := reflect.New(v.Type()).Elem()
		for i := 0; i < v.NumField(); i++ {
			if v.Type() == reflect.TypeOf(SetItem{}) && v.Type().Field(i).Name == "Target" {
				n.Field(i).Set(v.Field(i))
				continue
			}
			n.Field(i).Set(mapValue(v.Field(i), f))
		}
		if exprTypes[v.Type()] {
			return reflect.ValueOf(f(n.Interface()))
		}
		return n
	}
	return v
}

func c27(t *T) {
	r := t.rng
	k := newFnKit(r)
	defer func() { modelFns = nil }()
	switch r.Intn(8) {
	case 0, 1, 2:
		c27Values(t, k)
	case 3, 4:
		c27Updates(t, k)
	case 5, 6:
		c27Calls(t, k)
	case 7:
		c27Errors(t, k)
	}
}

// c27Values: a call can be wherever an expression can
func c27Values(t *T, k *fnKit) {
	r := t.rng
	gg := GraphGen{rng: r, nMin: 0, nMax: 6, eMax: 7, loops: true, wide: r.Intn(2) == 0, index: 20, large: 60}
	q := NewQGen(r, gg.gen())
	q.wide = gg.wide
	q.pProp, q.pWhere = 40, 60
	var ms []Match
	for i := r.Intn(3); i > 0; i-- {
		ms = append(ms, q.match(r.Intn(4) == 0))
	}
	s := Single{Read: ms, Ret: q.project()}
	k.check(t, q, s, false, "calls in reading queries")
}

func c27Updates(t *T, k *fnKit) {
	r := t.rng
	q := updateGen(t)
	var s Single
	if r.Intn(4) > 0 {
		s.Read = append(s.Read, q.match(false))
	}
	for i := 1 + r.Intn(2); i > 0; i-- {
		switch {
		case len(q.vars("node")) > 0 && r.Intn(2) == 0:
			s.Upd = append(s.Upd, q.set())
		case r.Intn(3) == 0:
			s.Upd = append(s.Upd, q.merge())
		default:
			s.Upd = append(s.Upd, q.create(2))
		}
	}
	if r.Intn(3) > 0 {
		s.Ret = q.retState()
	}
	k.check(t, q, s, true, "calls in updating queries")
}

// check compares a query with calls put into it to the reference
func (k *fnKit) check(t *T, q *QGen, s Single, upd bool, event string) {
	r := k.rng
	all, n := 0, 0
	mapExprs(s, func(e Expr) Expr {
		all++
		return e
	})
	if all == 0 {
		t.Skip()
		return
	}
	want := 1 + r.Intn(5)
	s = mapExprs(s, func(e Expr) Expr {
		if r.Intn(all) >= want || n >= 6 {
			return e
		}
		n++
		return k.wrap(e)
	}).(Single)
	if n == 0 {
		t.Skip()
		return
	}
	c := q.queryCase(s)
	c.real = c.g.build()
	k.real = c.real
	v := checkQuery(t, c, event)
	if !v.Skipped && v.Bad == "" {
		t.EventN("calls observed", len(k.log))
	}
}

// strict makes an expression in which every call is due exactly once
// whenever the expression is evaluated (in CASE: the parts that decide)
func (k *fnKit) strict(q *QGen, depth int) Expr {
	r := k.rng
	if depth == 0 {
		switch x := r.Intn(8); {
		case x < 3 && len(q.scope) > 0:
			v := q.scope[r.Intn(len(q.scope))]
			switch {
			case v.kind == "node" && r.Intn(2) == 0:
				return Var{v.name}
			case v.kind == "node" && r.Intn(2) == 0:
				return Func{k.by["var"].text, []Expr{Lit{v.name}}}
			case v.kind == "node":
				return Prop{Var{v.name}, []string{"x", "name", "missing"}[r.Intn(3)]}
			}
			return Lit{v.name}
		case x == 3 && len(q.params) > 0:
			var ps []string
			for p := range q.params {
				ps = append(ps, p)
			}
			sortStrings(ps)
			for _, p := range ps {
				if r.Intn(2) == 0 {
					return Func{k.by["par"].text, []Expr{Lit{p}}}
				}
				return Param{p}
			}
		}
		return k.leaf()
	}
	sub := func() Expr { return k.strict(q, depth-1) }
	switch r.Intn(11) {
	case 0:
		return ListE{[]Expr{sub(), sub()}}
	case 1:
		return MapE{[]string{"a", "b"}, []Expr{sub(), sub()}}
	case 2:
		if depth > 2 {
			return sub()
		}
		return Paren{sub()}
	case 3:
		return IsNull{sub(), r.Intn(2) == 0}
	case 4:
		return Case{Whens: []CaseWhen{{IsNull{sub(), false}, sub()}, {Not{IsNull{sub(), r.Intn(2) == 0}}, sub()}}, Else: sub()}
	case 5:
		return Index{Func{k.by["lst"].text, []Expr{sub(), sub()}}, Lit{r.Intn(2)}}
	case 6:
		n := 1 + r.Intn(3)
		args := []Expr{Func{k.by["id"].text, []Expr{Lit{1 + r.Intn(n)}}}}
		for i := 0; i < n; i++ {
			args = append(args, sub())
		}
		return Func{k.by["nth"].text, args}
	case 7:
		return Func{k.by["const"].text, nil}
	case 8:
		f := k.by["lst"]
		var args []Expr
		for n := f.min + r.Intn(f.max-f.min+1); n > 0; n-- {
			args = append(args, sub())
		}
		return Func{f.text, args}
	case 9:
		return Func{k.by["sub"].text, []Expr{sub()}}
	}
	return Func{k.by["id"].text, []Expr{sub()}}
}

// c27Calls: functions are called once for every call in the text and
// every row, each time the query is evaluated
func c27Calls(t *T, k *fnKit) {
	r := t.rng
	gg := GraphGen{rng: r, nMin: 0, nMax: 5, eMax: 5, loops: true}
	q := NewQGen(r, gg.gen())
	q.pUndirected = 0
	q.param(r.Intn(5))
	if r.Intn(2) == 0 {
		q.param(List{1, "x"})
	}
	var s Single
	if r.Intn(4) > 0 {
		s.Read = append(s.Read, q.match(false))
	}
	if r.Intn(3) == 0 {
		s.Read = append(s.Read, q.match(true))
	}
	s.Ret = &Return{}
	for i := 1 + r.Intn(3); i > 0; i-- {
		s.Ret.Items = append(s.Ret.Items, RetItem{E: k.strict(q, 1+r.Intn(2+r.Intn(2))), Alias: q.maybeAlias()})
	}
	c := q.queryCase(s)
	if r.Intn(4) == 0 {
		c.sub = 1
	}
	c.real = c.g.build()
	k.real = c.real
	c.text = c.q.text(nil, r)
	if r.Intn(2) == 0 {
		p, err := oc.Parse(c.text)
		if err != nil {
			t.Violate("%v\n%s", err, c.describe(c.text))
			return
		}
		c.parsed = p
	}
	c.maxRow = 300
	for i := 1 + r.Intn(2); i > 0; i-- {
		k.log = nil
		v := checkQuery(t, c, "queries with every call counted")
		if v.Skipped || v.Bad != "" || v.Exp.err != nil {
			return
		}
		t.EventN("calls compared", len(k.log))
		if d := diffBags(v.Exp.calls, k.log, "call"); d != "" {
			t.Violate("%s\n%s", d, c.describe(c.text))
			return
		}
	}
}

// c27Errors: errors of functions and wrong numbers of arguments
func c27Errors(t *T, k *fnKit) {
	r := t.rng
	q := NewQGen(r, GraphGen{rng: r, nMin: 1, nMax: 3}.gen())
	var s Single
	if r.Intn(2) == 0 {
		s.Read = []Match{{Parts: []Part{{Nodes: []NodePat{{Var: "n"}}}}}}
		q.add("n", "node")
	}
	var bad Expr
	kind := r.Intn(3)
	switch kind {
	case 0: // too few or too many arguments
		f := k.fns[r.Intn(len(k.fns))]
		n := f.min - 1
		if f.max >= 0 && (n < 0 || r.Intn(2) == 0) {
			n = f.max + 1 + r.Intn(2)
		}
		if n < 0 {
			t.Skip()
			return
		}
		var args []Expr
		for i := 0; i < n; i++ {
			args = append(args, k.strict(q, 1))
		}
		bad = Func{f.text, args}
	case 1:
		var args []Expr
		for i := 1 + r.Intn(2); i > 0; i-- {
			args = append(args, k.strict(q, 1))
		}
		bad = Func{k.by["fail"].text, args}
	case 2:
		n := []string{"nosuch", "ns.nosuch", k.by["sub"].text + ".x", "x." + k.by["id"].text, "sub.size"}[r.Intn(5)]
		bad = Func{n, []Expr{k.strict(q, 1)}}
	}
	e := bad
	for i := r.Intn(3); i > 0; i-- {
		switch r.Intn(5) {
		case 0:
			e = ListE{[]Expr{k.strict(q, 1), e}}
		case 1:
			e = MapE{[]string{"a", "b"}, []Expr{e, k.strict(q, 1)}}
		case 2:
			e = Func{k.by["lst"].text, []Expr{k.strict(q, 1), e}}
		case 3:
			e = IsNull{e, false}
		case 4:
			e = Case{Whens: []CaseWhen{{IsNull{e, false}, Lit{1}}}, Else: Lit{2}}
		}
	}
	if len(s.Read) > 0 && r.Intn(3) == 0 {
		s.Read[0].Where = IsNull{e, false}
		s.Ret = &Return{Items: []RetItem{{E: Lit{1}}}}
	} else {
		s.Ret = &Return{Items: []RetItem{{E: e}}}
		if r.Intn(3) == 0 {
			s.Ret.Items = append(s.Ret.Items, RetItem{E: k.strict(q, 1)})
		}
	}
	c := q.queryCase(s)
	c.real = c.g.build()
	k.real = c.real
	c.text = c.q.text(nil, r)
	ctx, _ := newCtx(c.real, c.params)
	o := runText(c.text, ctx)
	t.Eval(1)
	t.Event([]string{"wrong numbers of arguments", "functions that fail", "unknown functions"}[kind])
	t.Sig(c.text)
	switch {
	case o.Panic != "" || o.Err == nil:
		o.canonRows(c.real)
		t.Violate("an error was expected, got %s\n%s", o, c.describe(c.text))
	case kind == 1 && !errors.Is(o.Err, errUser):
		t.Violate("the error of the function was expected, got %s\n%s", o, c.describe(c.text))
	}
}

// ---- C28

func init() {
	register(&Check{ID: "C28", Quick: 20000, Thorough: 250000,
		Rule: "One construct that is in the grammar, but not implemented (WITH, UNWIND, CALL, comprehensions, quantifiers, aggregates, EXISTS, patterns as expressions, =~), put at a random place of a random query with random spelling; the reference decides if it is reached, and then the query must fail, without a panic. Counted: distinct queries in which the construct was reached.",
		Run:  c28})
}

func anyCase(r *rand.Rand, s string) string {
	switch r.Intn(3) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return s[:1] + strings.ToLower(s[1:])
	}
	return s
}

// unsupported is the text of an expression that is not implemented
func unsupported(q *QGen) (kind, text string) {
	r := q.rng
	node := ""
	if ns := q.nonNull("node"); len(ns) > 0 {
		node = name(ns[r.Intn(len(ns))].name)
	}
	kw := func(s string) string { return anyCase(r, s) }
	list := []string{"[1,2,3]", "[]", "range(1,3)", "['a']", "NULL", "labels(" + node + ")"}[r.Intn(6)]
	if node == "" && strings.HasPrefix(list, "labels") {
		list = "[[1]]"
	}
	val := []string{"1", "'a'", "NULL", "[1]", "1+1", "$p_"}[r.Intn(6)]
	if node != "" && r.Intn(2) == 0 {
		val = []string{node, node + ".x", node + ".name"}[r.Intn(3)]
	}
	if val == "$p_" {
		q.params["p_"] = 1
	}
	pred := []string{"true", "x_ > 1", "x_ = 1", "false", "x_ IS NULL", "x_"}[r.Intn(6)]
	from := node
	if r.Intn(3) == 0 {
		from = ""
	}
	arrow := []string{"-->", "--", "<--", "-[:R]->", "-[*]->", "-[{x:1}]-", "<-[:R|S]-"}[r.Intn(7)]
	to := []string{"", ":A", "{x:1}"}[r.Intn(3)]
	switch r.Intn(13) {
	case 0:
		return "list comprehension", "[x_ " + kw("IN") + " " + list + "|" + []string{"x_", "1", "x_+1", val}[r.Intn(4)] + "]"
	case 1:
		return "list comprehension", "[x_ " + kw("IN") + " " + list + " " + kw("WHERE") + " " + pred + "]"
	case 2:
		return "list comprehension", "[x_ " + kw("IN") + " " + list + " " + kw("WHERE") + " " + pred + " | " + val + "]"
	case 3:
		return "list comprehension", "[x_ " + kw("IN") + " " + list + "]"
	case 4:
		return "pattern comprehension", "[(" + from + ")" + arrow + "(" + to + ") | " + val + "]"
	case 5, 6:
		f := []string{"ALL", "ANY", "NONE", "SINGLE"}[r.Intn(4)]
		return strings.ToLower(f), kw(f) + "(x_ " + kw("IN") + " " + list + " " + kw("WHERE") + " " + pred + ")"
	case 7:
		return "count(*)", kw("COUNT") + []string{"(*)", " ( * )"}[r.Intn(2)]
	case 8:
		d := ""
		if r.Intn(3) == 0 {
			d = kw("DISTINCT") + " "
		}
		return "aggregates", []string{"count", "collect", "sum", "avg", "min", "max", "stDev"}[r.Intn(7)] + "(" + d + val + ")"
	case 9:
		if r.Intn(2) == 0 || node == "" {
			return "exists", kw("EXISTS") + "((" + from + ")" + arrow + "(" + to + "))"
		}
		return "exists", kw("EXISTS") + "(" + node + ".x)"
	case 10, 11:
		return "patterns", "(" + from + ")" + arrow + "(" + to + ")"
	}
	return "regular expressions", []string{"'a'", "'abc'", "NULL", "''"}[r.Intn(4)] + " =~ " + []string{"'a'", "'.*'", "NULL", "''"}[r.Intn(4)]
}

func c28(t *T) {
	r := t.rng
	gg := GraphGen{rng: r, nMin: 1, nMax: 5, eMax: 6, loops: true}
	q := NewQGen(r, gg.gen())
	q.pLabel, q.pProp, q.pWhere = 20, 10, 20
	var s Single
	for i := r.Intn(3); i > 0; i-- {
		s.Read = append(s.Read, q.match(r.Intn(4) == 0))
	}
	if r.Intn(4) == 0 {
		c28Clause(t, q, s)
		return
	}
	reached := 0
	fns := map[string]*ufn{"reach": {name: "reach", max: 0, model: func(env *Env, a []V) (V, error) {
		reached++
		return true, nil
	}}}
	kind, text := unsupported(q)
	var e Expr = Func{"reach", nil}
	paren := kind == "regular expressions"
	if paren && r.Intn(2) == 0 {
		e = Paren{e}
		paren = false
	}
	wrapped := false
	if !paren {
		for i := r.Intn(3); i > 0; i-- {
			wrapped = true
			leaf := []Expr{Lit{1}, Lit{"a"}, Lit{nil}}[r.Intn(3)]
			switch r.Intn(8) {
			case 0:
				e = ListE{[]Expr{leaf, e}}
			case 1:
				e = MapE{[]string{"a", "b"}, []Expr{e, leaf}}
			case 2:
				e = IsNull{e, r.Intn(2) == 0}
			case 3:
				e = Case{Whens: []CaseWhen{{IsNull{e, false}, Lit{true}}}, Else: Lit{false}}
			case 4:
				e = Case{Whens: []CaseWhen{{Lit{true}, e}}}
			case 5:
				e = Case{Whens: []CaseWhen{{Lit{false}, leaf}}, Else: e}
			case 6:
				e = Paren{e}
			case 7:
				e = Index{ListE{[]Expr{e, leaf}}, Lit{0}}
			}
		}
	}
	nodes := q.nonNull("node")
	ret := func() *Return {
		ret := q.retAll()
		ret.Distinct = r.Intn(5) == 0
		return ret
	}
	switch r.Intn(7) {
	case 0:
		if len(s.Read) > 0 && !wrapped && !paren {
			s.Read[len(s.Read)-1].Where = e
			s.Ret = ret()
			break
		}
		fallthrough
	case 1, 2:
		s.Ret = ret()
		it := RetItem{E: e, Alias: q.maybeAlias()}
		if r.Intn(2) == 0 {
			s.Ret.Items = append(s.Ret.Items, it)
		} else {
			s.Ret.Items = []RetItem{it}
		}
	case 3:
		s.Ret = ret()
		s.Ret.Distinct = false
		s.Ret.Order = []SortItem{{E: e}}
		if wrapped {
			s.Ret.Order[0].E = Func{"reach", nil}
		}
	case 4:
		if len(nodes) > 0 {
			v := nodes[r.Intn(len(nodes))].name
			s.Upd = []Clause{SetC{[]SetItem{{Kind: "prop", Target: Var{v}, Key: "x", E: e}}}}
			break
		}
		fallthrough
	case 5:
		s.Upd = []Clause{Create{[]Part{{Nodes: []NodePat{{Props: &PropsPat{Map: &MapE{Keys: []string{"k"}, Vals: []Expr{e}}}}}}}}}
	case 6:
		s.Ret = &Return{Items: []RetItem{{E: ListE{[]Expr{e}}}}}
	}
	if len(s.Upd) > 0 && r.Intn(2) == 0 {
		s.Ret = ret()
	}
	c := q.queryCase(s)
	c.fns = fns
	c.maxRow = 2000
	o := c.model(nil)
	if o.err != nil || reached == 0 || (len(s.Upd) == 0 && s.Ret.Order != nil && len(o.res.Rows) < 2) {
		t.Skip()
		return
	}
	// the same, with the text
	s = mapExprs(s, func(e Expr) Expr {
		if f, ok := e.(Func); ok && f.Name == "reach" {
			return Raw{Text: text}
		}
		return e
	}).(Single)
	c.q.Singles[0] = s
	c28Run(t, c, c.q.text(nil, r), kind)
}

func c28Run(t *T, c *QCase, text, kind string) {
	real := c.g.build()
	ctx, _ := newCtx(real, c.params)
	o := runText(text, ctx)
	t.Eval(1)
	t.Event(kind)
	t.Sig(text)
	if o.Panic != "" || o.Err == nil {
		o.canonRows(real)
		t.Violate("%s is not implemented: an error was expected, got %s\n%s", kind, o, c.describe(text))
	}
}

// c28Clause: clauses
func c28Clause(t *T, q *QGen, s Single) {
	r := q.rng
	if len(s.Read) > 0 {
		// there must be rows: without any, the result is right
		rows := s
		rows.Ret = &Return{Items: []RetItem{{E: Lit{1}}}}
		c := q.queryCase(rows)
		c.maxRow = 2000
		if o := c.model(nil); o.err != nil || len(o.res.Rows) == 0 {
			t.Skip()
			return
		}
	}
	c := q.queryCase(s)
	p := &Printer{}
	kw := func(s string) string { return anyCase(r, s) }
	for _, m := range s.Read {
		p.clause(m)
		p.req()
	}
	reading := Style{r}.text(p.toks) + " "
	vars := "1 AS v_"
	one := "v_"
	if len(q.scope) > 0 {
		one = name(q.scope[r.Intn(len(q.scope))].name)
		vars = one
	}
	if r.Intn(3) == 0 {
		vars = "*"
		if len(q.scope) == 0 {
			vars = "1 AS v_"
		}
	}
	upd := []string{"", "", "CREATE (n_) ", "MERGE (n_:A) "}[r.Intn(4)]
	ret := kw("RETURN") + " " + one
	list := []string{"[1,2]", "[]", "NULL", "range(1,2)", "1"}[r.Intn(5)]
	kind, text := "", ""
	switch r.Intn(7) {
	case 0:
		kind, text = "WITH", reading+upd+kw("WITH")+" "+vars+" "+ret
	case 1:
		kind, text = "WITH", reading+kw("WITH")+" "+vars+" "+kw("WHERE")+" true "+ret
	case 2:
		kind, text = "WITH", reading+kw("WITH")+" "+vars+" MATCH (q_) "+ret
	case 3:
		kind, text = "WITH", reading+kw("WITH")+" "+vars+" CREATE (q_)"
	case 4:
		kind, text = "UNWIND", reading+kw("UNWIND")+" "+list+" AS u_ "+kw("RETURN")+" "+[]string{"u_", "1 AS x", "*"}[r.Intn(3)]
	case 5:
		if len(s.Read) > 0 {
			// UNWIND is the first clause: it is reached
			t.Event("UNWIND first")
		}
		kind, text = "UNWIND", kw("UNWIND")+" "+list+" AS u_ "+reading+[]string{"RETURN 1", "CREATE (:B)", "CREATE (:B {x:u_})"}[r.Intn(3)]
	case 6:
		kind = "CALL"
		switch r.Intn(3) {
		case 0:
			text = kw("CALL") + " db.labels()"
		case 1:
			text = kw("CALL") + " proc"
		case 2:
			text = reading + kw("CALL") + " a.b(1) " + kw("YIELD") + " y_ RETURN y_"
		}
	}
	if r.Intn(8) == 0 && !strings.HasSuffix(text, "*") && kind != "CALL" && strings.Contains(text, "RETURN") {
		text += " UNION ALL RETURN 1 AS " + one
	}
	c28Run(t, c, text, kind)
}
