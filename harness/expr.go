package main

import (
	"errors"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"
)

// Expr is an expression of the reference language
type Expr interface{}

type (
	Lit struct{ V V }
	Raw struct { // a literal with a specific spelling
		Text string
		V    V
	}
	Param struct{ Name string }
	Var   struct{ Name string }
	Prop  struct {
		E   Expr
		Key string
	}
	HasLabels struct {
		E      Expr
		Labels []string
	}
	Un struct {
		Op string
		E  Expr
	}
	Bin struct { // + - * / % ^
		Op   string
		L, R Expr
	}
	Logic struct { // AND OR XOR
		Op    string
		Parts []Expr
	}
	Cmp struct {
		First Expr
		Rest  []CmpPart
	}
	CmpPart struct {
		Op string
		E  Expr
	}
	Not    struct{ E Expr }
	IsNull struct {
		E   Expr
		Neg bool
	}
	In    struct{ L, R Expr }
	StrOp struct {
		Op   string
		L, R Expr
	}
	Index struct{ L, I Expr }
	Slice struct{ L, From, To Expr }
	ListE struct{ Items []Expr }
	MapE  struct {
		Keys []string
		Vals []Expr
	}
	Case struct {
		Test  Expr
		Whens []CaseWhen
		Else  Expr
	}
	CaseWhen struct{ When, Then Expr }
	Func     struct {
		Name string
		Args []Expr
	}
	Paren struct{ E Expr }
)

var (
	errEval   = errors.New("evaluation error")
	errUnspec = errors.New("unspecified")
)

// Env is where expressions are evaluated
type Env struct {
	params map[string]V
	vars   map[string]V
	parent *Env
	g      *MGraph
	fns    map[string]*ufn // besides those of modelFns
}

func (e *Env) lookup(name string) (V, bool) {
	for x := e; x != nil; x = x.parent {
		if v, ok := x.vars[name]; ok {
			return v, true
		}
	}
	return nil, false
}
func (e *Env) lookupParam(name string) (V, bool) {
	for x := e; x != nil; x = x.parent {
		if v, ok := x.params[name]; ok {
			return v, true
		}
	}
	return nil, false
}

// operandConflict decides between two errors: unspecified wins
func worse(a, b error) error {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if a == errUnspec || b == errUnspec {
		return errUnspec
	}
	return errEval
}

func (env *Env) evalAll(es []Expr) ([]V, error) {
	out := make([]V, len(es))
	var err error
	for i, e := range es {
		v, e2 := env.Eval(e)
		err = worse(err, e2)
		out[i] = v
	}
	return out, err
}

const maxSafe = 1 << 53

func checkedInt(x *big.Int) (V, error) {
	if !x.IsInt64() || x.Int64() == math.MinInt64 {
		return nil, errUnspec
	}
	return int(x.Int64()), nil
}
func checkedFloat(f float64) (V, error) {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return nil, errUnspec
	}
	return f, nil
}

func (env *Env) Eval(e Expr) (V, error) {
	switch t := e.(type) {
	case Lit:
		return cloneV(t.V), nil
	case Raw:
		return cloneV(t.V), nil
	case Paren:
		return env.Eval(t.E)
	case Param:
		v, ok := env.lookupParam(t.Name)
		if !ok {
			return nil, errEval
		}
		return cloneV(v), nil
	case Var:
		v, ok := env.lookup(t.Name)
		if !ok {
			return nil, errEval
		}
		return cloneV(v), nil
	case Prop:
		v, err := env.Eval(t.E)
		if err != nil {
			return nil, err
		}
		return env.property(v, t.Key)
	case HasLabels:
		v, err := env.Eval(t.E)
		if err != nil {
			return nil, err
		}
		if v == nil {
			return nil, nil
		}
		n, ok := v.(NodeRef)
		if !ok {
			return nil, errUnspec
		}
		for _, l := range t.Labels {
			if !env.g.nodes[int(n)].labels[l] {
				return false, nil
			}
		}
		return true, nil
	case Un:
		v, err := env.Eval(t.E)
		if err != nil {
			return nil, err
		}
		switch x := v.(type) {
		case nil:
			return nil, nil
		case int:
			if t.Op == "-" {
				return checkedInt(new(big.Int).Neg(big.NewInt(int64(x))))
			}
			return x, nil
		case float64:
			if t.Op == "-" {
				return -x, nil
			}
			return x, nil
		}
		return nil, errEval
	case Bin:
		vs := make([]V, 2)
		var err error
		null := false
		for i, o := range []Expr{t.L, t.R} {
			v, e2 := env.Eval(o)
			null = null || (e2 == nil && v == nil)
			err = worse(err, e2)
			vs[i] = v
		}
		if err != nil {
			if null {
				// null, or the error: the other operand need not be evaluated
				return nil, errUnspec
			}
			return nil, err
		}
		return binary(t.Op, vs[0], vs[1])
	case Logic:
		vs := make([]V, len(t.Parts))
		var err error
		for i, p := range t.Parts {
			v, e2 := env.Eval(p)
			if e2 == nil && v != nil {
				if _, ok := v.(bool); !ok {
					e2 = errEval
				}
			}
			err = worse(err, e2)
			vs[i] = v
		}
		return logic(t.Op, vs, err)
	case Not:
		v, err := env.Eval(t.E)
		if err != nil {
			return nil, err
		}
		if v == nil {
			return nil, nil
		}
		b, ok := v.(bool)
		if !ok {
			return nil, errEval
		}
		return !b, nil
	case Cmp:
		prev, err := env.Eval(t.First)
		if err != nil {
			return nil, err
		}
		var res V = true
		for _, p := range t.Rest {
			v, err := env.Eval(p.E)
			if err == nil {
				var r V
				r, err = compareOp(p.Op, prev, v)
				if err == nil {
					res = and3(res, r)
					prev = v
					continue
				}
			}
			if res != true || prev == nil {
				return nil, errUnspec
			}
			return nil, err
		}
		return res, nil
	case IsNull:
		v, err := env.Eval(t.E)
		if err != nil {
			return nil, err
		}
		return (v == nil) != t.Neg, nil
	case In:
		vs, err := env.evalAll([]Expr{t.L, t.R})
		if err != nil {
			return nil, err
		}
		if vs[1] == nil {
			return nil, nil
		}
		l, ok := vs[1].(List)
		if !ok {
			if _, isSet := vs[1].(lazySet); isSet {
				l = List{}
				for _, x := range vs[1].(lazySet) {
					l = append(l, x)
				}
			} else {
				return nil, errEval
			}
		}
		if vs[0] == nil {
			if len(l) == 0 {
				return nil, errUnspec
			}
			return nil, nil
		}
		var res V = false
		for _, x := range l {
			r, err := compareOp("=", vs[0], x)
			if err != nil {
				return nil, errUnspec
			}
			res = or3(res, r)
		}
		return res, nil
	case StrOp:
		vs, err := env.evalAll([]Expr{t.L, t.R})
		if err != nil {
			return nil, err
		}
		if vs[0] == nil || vs[1] == nil {
			for _, v := range vs {
				if _, ok := v.(string); v != nil && !ok {
					return nil, errUnspec
				}
			}
			return nil, nil
		}
		a, ok1 := vs[0].(string)
		b, ok2 := vs[1].(string)
		if !ok1 || !ok2 {
			return nil, errEval
		}
		switch t.Op {
		case "STARTS WITH":
			return len(a) >= len(b) && a[:len(b)] == b, nil
		case "ENDS WITH":
			return len(a) >= len(b) && a[len(a)-len(b):] == b, nil
		}
		for i := 0; i+len(b) <= len(a); i++ {
			if a[i:i+len(b)] == b {
				return true, nil
			}
		}
		return false, nil
	case Index:
		vs, err := env.evalAll([]Expr{t.L, t.I})
		if err != nil {
			return nil, err
		}
		if vs[0] == nil || vs[1] == nil {
			if _, ok := vs[0].(List); vs[0] != nil && !ok {
				return nil, errUnspec
			}
			if _, ok := vs[1].(int); vs[1] != nil && !ok {
				return nil, errUnspec
			}
			return nil, nil
		}
		l, ok := vs[0].(List)
		if !ok {
			return nil, errEval
		}
		i, ok := vs[1].(int)
		if !ok {
			return nil, errEval
		}
		if i < 0 {
			i += len(l)
		}
		if i < 0 || i >= len(l) {
			return nil, nil
		}
		return l[i], nil
	case Slice:
		from, to := t.From, t.To
		es := []Expr{t.L}
		if from != nil {
			es = append(es, from)
		}
		if to != nil {
			es = append(es, to)
		}
		vs := make([]V, len(es))
		var err error
		null := false
		for i, e := range es {
			v, e2 := env.Eval(e)
			err = worse(err, e2)
			null = null || (e2 == nil && v == nil)
			vs[i] = v
		}
		if err != nil {
			if null {
				return nil, errUnspec // null or the error
			}
			return nil, err
		}
		hasNull := false
		for i, v := range vs {
			if v == nil {
				hasNull = true
				continue
			}
			if i == 0 {
				if _, ok := v.(List); !ok {
					err = errEval
				}
			} else if n, ok := v.(int); !ok || n < 0 {
				if ok {
					err = worse(err, errUnspec) // negative bounds
				} else {
					err = worse(err, errEval)
				}
			}
		}
		if err != nil {
			if hasNull {
				return nil, errUnspec
			}
			return nil, err
		}
		if hasNull {
			return nil, nil
		}
		l := vs[0].(List)
		f, tt := 0, len(l)
		k := 1
		if from != nil {
			f = vs[k].(int)
			k++
		}
		if to != nil {
			tt = vs[k].(int)
		}
		out := List{}
		for i := range l {
			if i >= f && i < tt {
				out = append(out, l[i])
			}
		}
		return out, nil
	case ListE:
		vs, err := env.evalAll(t.Items)
		if err != nil {
			return nil, err
		}
		return List(vs), nil
	case MapE:
		vs, err := env.evalAll(t.Vals)
		if err != nil {
			return nil, err
		}
		m := Map{}
		for i, k := range t.Keys {
			m[k] = vs[i]
		}
		return m, nil
	case Case:
		var test V
		if t.Test != nil {
			v, err := env.Eval(t.Test)
			if err != nil {
				return nil, err
			}
			test = v
		}
		for _, w := range t.Whens {
			v, err := env.Eval(w.When)
			if err != nil {
				return nil, err
			}
			if t.Test != nil {
				r, err := compareOp("=", test, v)
				if err != nil {
					return nil, errUnspec
				}
				if r == true {
					return env.Eval(w.Then)
				}
				continue
			}
			if v == nil {
				continue
			}
			b, ok := v.(bool)
			if !ok {
				return nil, errEval
			}
			if b {
				return env.Eval(w.Then)
			}
		}
		if t.Else != nil {
			return env.Eval(t.Else)
		}
		return nil, nil
	case Func:
		vs, err := env.evalAll(t.Args)
		if err != nil {
			return nil, err
		}
		return env.call(t.Name, vs)
	}
	panic("harness: eval")
}

func (env *Env) property(v V, key string) (V, error) {
	switch x := v.(type) {
	case nil:
		return nil, nil
	case Map:
		return cloneV(x[key]), nil
	case NodeRef:
		n := env.g.nodes[int(x)]
		if n == nil {
			return nil, errUnspec // deleted
		}
		return cloneV(n.props[key]), nil
	case EdgePath:
		if len(x.IDs) != 1 {
			return nil, errUnspec
		}
		ed := env.g.edges[x.IDs[0]]
		if ed == nil {
			return nil, errUnspec
		}
		return cloneV(ed.props[key]), nil
	}
	return nil, errEval
}

func and3(a, b V) V {
	if a == false || b == false {
		return false
	}
	if a == nil || b == nil {
		return nil
	}
	return true
}
func or3(a, b V) V {
	if a == true || b == true {
		return true
	}
	if a == nil || b == nil {
		return nil
	}
	return false
}

func logic(op string, vs []V, err error) (V, error) {
	// With an erroneous operand, the result can be an error, or the
	// value the other operands force
	if op == "XOR" {
		if err != nil {
			for _, v := range vs {
				if v == nil {
					return nil, errUnspec
				}
			}
			return nil, err
		}
		var res V = false
		for _, v := range vs {
			if v == nil {
				return nil, nil
			}
			res = (res == true) != (v == true)
		}
		return res, nil
	}
	absorbing := op == "OR"
	if err != nil {
		for _, v := range vs {
			if v == absorbing {
				return nil, errUnspec
			}
		}
		return nil, err
	}
	var res V = !absorbing
	for _, v := range vs {
		if op == "AND" {
			res = and3(res, v)
		} else {
			res = or3(res, v)
		}
	}
	return res, nil
}

// compare orders two values of comparable types
func compare(a, b V) (int, error) {
	cmpf := func(less, eq bool) int {
		if eq {
			return 0
		}
		if less {
			return -1
		}
		return 1
	}
	switch x := a.(type) {
	case bool:
		if y, ok := b.(bool); ok {
			return cmpf(!x && y, x == y), nil
		}
	case int:
		switch y := b.(type) {
		case int:
			return cmpf(x < y, x == y), nil
		case float64:
			if x > maxSafe || x < -maxSafe {
				return 0, errUnspec
			}
			return new(big.Float).SetInt64(int64(x)).Cmp(big.NewFloat(y)), nil
		}
	case float64:
		switch y := b.(type) {
		case int:
			if y > maxSafe || y < -maxSafe {
				return 0, errUnspec
			}
			return big.NewFloat(x).Cmp(new(big.Float).SetInt64(int64(y))), nil
		case float64:
			return cmpf(x < y, x == y), nil
		}
	case string:
		if y, ok := b.(string); ok {
			return strings.Compare(x, y), nil
		}
	case RDate:
		if y, ok := b.(RDate); ok {
			return cmpf(days(x) < days(y), days(x) == days(y)), nil
		}
	case RLT:
		if y, ok := b.(RLT); ok {
			return cmpf(x.Nanos < y.Nanos, x.Nanos == y.Nanos), nil
		}
	case RLDT:
		if y, ok := b.(RLDT); ok {
			dx, dy := days(x.Date), days(y.Date)
			return cmpf(dx < dy || (dx == dy && x.Nanos < y.Nanos), dx == dy && x.Nanos == y.Nanos), nil
		}
	case RDur:
		if y, ok := b.(RDur); ok {
			p := [][2]int64{{x.Months, y.Months}, {x.Days, y.Days}, {x.Secs, y.Secs}, {int64(x.Nanos), int64(y.Nanos)}}
			for _, q := range p {
				if q[0] != q[1] {
					return cmpf(q[0] < q[1], false), nil
				}
			}
			return 0, nil
		}
	}
	return 0, errEval
}

func compareOp(op string, a, b V) (V, error) {
	if a == nil || b == nil {
		return nil, nil
	}
	c, err := compare(a, b)
	if err != nil {
		return nil, err
	}
	switch op {
	case "=":
		return c == 0, nil
	case "<>":
		return c != 0, nil
	case "<":
		return c < 0, nil
	case "<=":
		return c <= 0, nil
	case ">":
		return c > 0, nil
	case ">=":
		return c >= 0, nil
	}
	panic("harness: op " + op)
}

func asFloat(v V) (float64, bool) {
	switch x := v.(type) {
	case int:
		return float64(x), true
	case float64:
		return x, true
	}
	return 0, false
}

func binary(op string, a, b V) (V, error) {
	if a == nil || b == nil {
		return nil, nil
	}
	ai, aInt := a.(int)
	bi, bInt := b.(int)
	af, aNum := asFloat(a)
	bf, bNum := asFloat(b)
	ad, aDur := a.(RDur)
	bd, bDur := b.(RDur)
	switch op {
	case "^":
		if !aNum || !bNum {
			return nil, errEval
		}
		return checkedFloat(math.Pow(af, bf))
	case "*", "/", "%":
		if aNum && bNum && op != "*" && bf == 0 {
			return nil, errEval
		}
		switch {
		case aInt && bInt:
			x, y := big.NewInt(int64(ai)), big.NewInt(int64(bi))
			switch op {
			case "*":
				return checkedInt(x.Mul(x, y))
			case "/":
				return checkedInt(x.Quo(x, y))
			}
			return checkedInt(x.Rem(x, y))
		case aNum && bNum:
			switch op {
			case "*":
				return checkedFloat(af * bf)
			case "/":
				return checkedFloat(af / bf)
			}
			return checkedFloat(math.Mod(af, bf))
		case op == "*" && aDur && bInt:
			return scaleDur(ad, int64(bi)), nil
		case op == "*" && aInt && bDur:
			return scaleDur(bd, int64(ai)), nil
		case op == "/" && aDur && bInt:
			if bi == 0 {
				return nil, errEval
			}
			k := int64(bi)
			return RDur{ad.Months / k, ad.Days / k, ad.Secs / k, ad.Nanos / bi}, nil
		case op == "*" && aDur && bNum:
			return scaleDurF(ad, bf, false)
		case op == "*" && aNum && bDur:
			return scaleDurF(bd, af, false)
		case op == "/" && aDur && bNum:
			if bf == 0 {
				return nil, errEval
			}
			return scaleDurF(ad, bf, true)
		}
		return nil, errEval
	case "+", "-":
		sub := op == "-"
		switch {
		case aInt && bInt:
			x, y := big.NewInt(int64(ai)), big.NewInt(int64(bi))
			if sub {
				return checkedInt(x.Sub(x, y))
			}
			return checkedInt(x.Add(x, y))
		case aNum && bNum:
			if sub {
				return checkedFloat(af - bf)
			}
			return checkedFloat(af + bf)
		case aDur && bDur:
			s := int64(1)
			if sub {
				s = -1
			}
			return RDur{ad.Months + s*bd.Months, ad.Days + s*bd.Days, ad.Secs + s*bd.Secs, ad.Nanos + int(s)*bd.Nanos}, nil
		case bDur:
			return addDur(a, bd, sub)
		case aDur:
			if sub {
				return nil, errEval
			}
			return addDur(b, ad, false)
		}
		if sa, ok := a.(string); ok {
			if sb, ok := b.(string); ok && !sub {
				if len(sa)+len(sb) > 50000 {
					return nil, errUnspec
				}
				return sa + sb, nil
			}
			return nil, errEval
		}
		if la, ok := a.(List); ok {
			if lb, ok := b.(List); ok && !sub {
				if len(la)+len(lb) > 5000 {
					return nil, errUnspec
				}
				return append(append(List{}, la...), lb...), nil
			}
		}
		return nil, errEval
	}
	panic("harness: binary " + op)
}

func scaleDur(d RDur, k int64) V {
	return RDur{d.Months * k, d.Days * k, d.Secs * k, d.Nanos * int(k)}
}

// scaleDurF is specified only if the components are exact
func scaleDurF(d RDur, f float64, div bool) (V, error) {
	conv := func(x int64) (int64, bool) {
		y := float64(x) * f
		if div {
			y = float64(x) / f
		}
		return int64(y), y == math.Trunc(y) && math.Abs(y) < 1e15
	}
	m, ok1 := conv(d.Months)
	dd, ok2 := conv(d.Days)
	s, ok3 := conv(d.Secs)
	n, ok4 := conv(int64(d.Nanos))
	if !ok1 || !ok2 || !ok3 || !ok4 {
		return nil, errUnspec
	}
	return RDur{m, dd, s, int(n)}, nil
}

func addMonths(d RDate, m int64) (RDate, error) {
	if d.D > 28 && m != 0 {
		return d, errUnspec
	}
	k := int64(d.Y)*12 + int64(d.M-1) + m
	y := k / 12
	mo := k % 12
	if mo < 0 {
		mo += 12
		y--
	}
	if y < 1 || y > 9999 {
		return d, errUnspec
	}
	return RDate{int(y), int(mo) + 1, d.D}, nil
}

func addDur(t V, d RDur, sub bool) (V, error) {
	s := int64(1)
	if sub {
		s = -1
	}
	const day = int64(86400e9)
	nanos := d.Secs*1e9 + int64(d.Nanos)
	if abs64(d.Secs) > 86e8 || abs64(d.Days) > 1e6 || abs64(d.Months) > 1e5 {
		return nil, errUnspec
	}
	switch x := t.(type) {
	case RDate:
		y, err := addMonths(x, s*d.Months)
		if err != nil {
			return nil, err
		}
		return checkedDate(fromDays(days(y) + s*d.Days))
	case RLT:
		n := (x.Nanos + s*nanos) % day
		if n < 0 {
			n += day
		}
		return RLT{n}, nil
	case RLDT:
		y, err := addMonths(x.Date, s*d.Months)
		if err != nil {
			return nil, err
		}
		dd := days(y) + s*d.Days
		n := x.Nanos + s*nanos
		q := n / day
		r := n % day
		if r < 0 {
			r += day
			q--
		}
		dt, err := checkedDate(fromDays(dd + q))
		if err != nil {
			return nil, err
		}
		out := RLDT{dt.(RDate), r}
		if !out.exists() {
			return nil, errUnspec
		}
		return out, nil
	}
	return nil, errEval
}

// exists is false for times that the local time zone skips, which
// cannot be represented
func (x RLDT) exists() bool {
	t := time.Date(x.Date.Y, time.Month(x.Date.M), x.Date.D, 0, 0, 0, int(x.Nanos), time.Local)
	return t.Year() == x.Date.Y && int(t.Month()) == x.Date.M && t.Day() == x.Date.D && nanosOfDay(t) == x.Nanos
}

func checkedDate(d RDate) (V, error) {
	if d.Y < 1 || d.Y > 9999 {
		return nil, errUnspec
	}
	return d, nil
}

func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// call evaluates a built-in function
func (env *Env) call(name string, a []V) (V, error) {
	if f := modelFns[name]; f != nil {
		return env.userCall(f, a)
	}
	for x := env; x != nil; x = x.parent {
		if f := x.fns[name]; f != nil {
			return f.model(env, a)
		}
	}
	str := func(i int) (string, bool) { s, ok := a[i].(string); return s, ok }
	switch name {
	case "size":
		switch x := a[0].(type) {
		case nil:
			return nil, nil
		case string:
			return len([]rune(x)), nil
		case List:
			return len(x), nil
		case lazySet:
			return len(x), nil
		}
		return nil, errUnspec
	case "range":
		n := make([]int, len(a))
		for i := range a {
			x, ok := a[i].(int)
			if !ok {
				return nil, errUnspec
			}
			n[i] = x
		}
		step := 1
		if len(n) == 3 {
			step = n[2]
		}
		if step == 0 {
			return nil, errUnspec
		}
		out := List{}
		x, end, st := big.NewInt(int64(n[0])), big.NewInt(int64(n[1])), big.NewInt(int64(step))
		for (step > 0 && x.Cmp(end) <= 0) || (step < 0 && x.Cmp(end) >= 0) {
			out = append(out, int(x.Int64()))
			if len(out) > 5000 {
				return nil, errUnspec
			}
			x = new(big.Int).Add(x, st)
		}
		return out, nil
	case "labels":
		if a[0] == nil {
			return nil, nil
		}
		n, ok := a[0].(NodeRef)
		if !ok {
			return nil, errEval
		}
		out := lazySet{}
		for l := range env.g.nodes[int(n)].labels {
			out = append(out, l)
		}
		sort.Strings(out)
		return out, nil
	case "type":
		e, ok := a[0].(EdgePath)
		if !ok || len(e.IDs) != 1 {
			if a[0] == nil || ok {
				return nil, errUnspec
			}
			return nil, errEval
		}
		return env.g.edges[e.IDs[0]].typ, nil
	case "left", "right", "substring":
		for i := range a {
			if a[i] == nil {
				for j := range a {
					if a[j] == nil {
						continue
					}
					if _, ok := a[j].(string); j == 0 && !ok {
						return nil, errUnspec
					}
					if _, ok := a[j].(int); j > 0 && !ok {
						return nil, errUnspec
					}
				}
				return nil, nil
			}
		}
		s, ok := str(0)
		if !ok {
			return nil, errEval
		}
		rs := []rune(s)
		for _, r := range rs {
			if r == unicode.ReplacementChar {
				return nil, errUnspec
			}
		}
		n := make([]int, 0)
		for _, x := range a[1:] {
			i, ok := x.(int)
			if !ok {
				return nil, errEval
			}
			if i < 0 {
				return nil, errUnspec
			}
			n = append(n, i)
		}
		clamp := func(i int) int {
			if i > len(rs) {
				return len(rs)
			}
			return i
		}
		switch name {
		case "left":
			return string(rs[:clamp(n[0])]), nil
		case "right":
			return string(rs[len(rs)-clamp(n[0]):]), nil
		}
		rest := rs[clamp(n[0]):]
		if len(n) == 2 && n[1] < len(rest) {
			rest = rest[:n[1]]
		}
		return string(rest), nil
	case "trim", "ltrim", "rtrim":
		if a[0] == nil {
			return nil, nil
		}
		s, ok := str(0)
		if !ok {
			return nil, errEval
		}
		rs := []rune(s)
		if name != "rtrim" {
			for len(rs) > 0 && unicode.IsSpace(rs[0]) {
				rs = rs[1:]
			}
		}
		if name != "ltrim" {
			for len(rs) > 0 && unicode.IsSpace(rs[len(rs)-1]) {
				rs = rs[:len(rs)-1]
			}
		}
		return string(rs), nil
	case "split":
		if a[0] == nil || a[1] == nil {
			for _, x := range a {
				if _, ok := x.(string); x != nil && !ok {
					return nil, errUnspec
				}
			}
			return nil, nil
		}
		s, ok := str(0)
		d, ok2 := str(1)
		if !ok || !ok2 {
			return nil, errEval
		}
		if d == "" {
			return nil, errUnspec
		}
		out := List{}
		start := 0
		for i := 0; i+len(d) <= len(s); {
			if s[i:i+len(d)] == d {
				out = append(out, s[start:i])
				i += len(d)
				start = i
			} else {
				i++
			}
		}
		return append(out, s[start:]), nil
	case "toInteger", "toIntegerOrNull":
		switch x := a[0].(type) {
		case nil:
			return nil, nil
		case int:
			return x, nil
		case bool:
			if x {
				return 1, nil
			}
			return 0, nil
		case float64:
			if math.Abs(x) > 9e18 {
				return nil, errUnspec
			}
			return int(math.Trunc(x)), nil
		case string:
			if v, ok := decimalInt(x); ok {
				return v, nil
			}
			if name == "toIntegerOrNull" {
				if notNumeric(x) {
					return nil, nil
				}
				return nil, errUnspec
			}
			if notNumeric(x) {
				return nil, errEval
			}
			return nil, errUnspec
		}
		if name == "toInteger" {
			return nil, errEval
		}
		return nil, nil
	case "toFloat", "toFloatOrNull":
		switch x := a[0].(type) {
		case nil:
			return nil, nil
		case int:
			return float64(x), nil
		case float64:
			return x, nil
		case string:
			if v, ok := decimalFloat(x); ok {
				return v, nil
			}
			if !notNumeric(x) {
				return nil, errUnspec
			}
			if name == "toFloat" {
				return nil, errEval
			}
			return nil, nil
		case bool:
			return nil, errUnspec
		}
		if name == "toFloat" {
			return nil, errEval
		}
		return nil, nil
	case "date":
		if len(a) != 1 {
			return nil, errUnspec
		}
		switch x := a[0].(type) {
		case nil:
			return nil, nil
		case string:
			return parseDateRef(x)
		case Map:
			get := func(k string, def int) (int, bool, error) {
				v, ok := x[k]
				if !ok {
					return def, true, nil
				}
				if v == nil {
					return 0, false, nil
				}
				i, ok := v.(int)
				if !ok {
					return 0, false, errEval
				}
				return i, true, nil
			}
			if _, ok := x["year"]; !ok {
				return nil, errUnspec
			}
			y, ok1, e1 := get("year", 0)
			m, ok2, e2 := get("month", 1)
			d, ok3, e3 := get("day", 1)
			if err := worse(worse(e1, e2), e3); err != nil {
				if !ok1 || !ok2 || !ok3 {
					return nil, errUnspec
				}
				return nil, err
			}
			if !ok1 || !ok2 || !ok3 {
				return nil, nil
			}
			if y < 1 || y > 9999 || m < 1 || m > 12 || d < 1 || d > 28 {
				return nil, errUnspec
			}
			return RDate{y, m, d}, nil
		}
		return nil, errEval
	}
	return nil, errUnspec
}

func decimalInt(s string) (int, bool) {
	t := s
	if strings.HasPrefix(t, "-") {
		t = t[1:]
	}
	if t == "" || len(t) > 19 {
		return 0, false
	}
	for _, c := range t {
		if c < '0' || c > '9' {
			return 0, false
		}
	}
	n, ok := new(big.Int).SetString(s, 10)
	if !ok || !n.IsInt64() {
		return 0, false
	}
	return int(n.Int64()), true
}

func decimalFloat(s string) (float64, bool) {
	t := strings.TrimPrefix(s, "-")
	if t == "" || t[0] < '0' || t[0] > '9' {
		return 0, false
	}
	dots := 0
	for i, c := range t {
		if c == '.' && i+1 < len(t) {
			dots++
			continue
		}
		if c < '0' || c > '9' {
			return 0, false
		}
	}
	if dots > 1 {
		return 0, false
	}
	f, err := strconv.ParseFloat(s, 64)
	return f, err == nil
}

// notNumeric: definitely not a number in any notation
func notNumeric(s string) bool {
	if s == "" {
		return true
	}
	if _, ok := map[string]bool{"abc": true, "x1": true, "--1": true, "1x": true, "hello": true, "1-": true, "q": true, "é": true}[s]; ok {
		return true
	}
	return strings.Contains(s, "x y")
}

func parseDateRef(s string) (V, error) {
	parts := strings.Split(s, "-")
	n := []int{1, 1, 1}
	if len(parts) > 3 || s == "" {
		if notNumeric(s) {
			return nil, errEval
		}
		return nil, errUnspec
	}
	for i, p := range parts {
		x, err := strconv.Atoi(p)
		if err != nil || (i == 0 && len(p) != 4) || (i > 0 && len(p) > 2) || len(p) == 0 {
			if notNumeric(s) {
				return nil, errEval
			}
			return nil, errUnspec
		}
		n[i] = x
	}
	if n[0] < 1 || n[1] < 1 || n[1] > 12 || n[2] < 1 {
		return nil, errUnspec
	}
	if n[2] > daysIn(n[0], n[1]) {
		return nil, errEval
	}
	return RDate{n[0], n[1], n[2]}, nil
}

func daysIn(y, m int) int {
	if m == 12 {
		return 31
	}
	return int(days(RDate{y, m + 1, 1}) - days(RDate{y, m, 1}))
}
