package main

import (
	"math/rand"
	"sort"
	"strconv"
	"strings"
)

func sortStrings(s []string) { sort.Strings(s) }

// Ty is a static type of a generated expression
type Ty int

const (
	TInt Ty = iota
	TFlt
	TStr
	TBool
	TLInt
	TLStr
	TLNum
	TMap
	TDate
	TLT
	TLDT
	TDur
	nTypes
)

type typed struct {
	e Expr
	t Ty
}

// EGen generates expressions over an environment
type EGen struct {
	rng    *rand.Rand
	leaves map[Ty][]Expr
	nulls  []Expr // expressions that are null
	nodes  []Expr // node valued expressions
	edges  []Expr // relationship valued expressions
	smalls []Expr // integers from 0 to 5
	nullP  float64
	envP   float64
	bigP   float64
	wrongP float64        // operands of a wrong type
	w      map[string]int // weights of productions; missing: 1
}

func NewEGen(rng *rand.Rand) *EGen {
	return &EGen{rng: rng, leaves: map[Ty][]Expr{}, envP: 0.5, bigP: 0.05, w: map[string]int{}}
}

func tyOf(v V) (Ty, bool) {
	switch t := v.(type) {
	case bool:
		return TBool, true
	case int:
		return TInt, true
	case float64:
		return TFlt, true
	case string:
		return TStr, true
	case Map:
		return TMap, true
	case RDate:
		return TDate, true
	case RLT:
		return TLT, true
	case RLDT:
		return TLDT, true
	case RDur:
		return TDur, true
	case List:
		if len(t) == 0 {
			return TLInt, true
		}
		x, ok := tyOf(t[0])
		if !ok {
			return 0, false
		}
		for _, y := range t {
			if yt, ok := tyOf(y); !ok || yt != x {
				return 0, false
			}
		}
		switch x {
		case TInt:
			return TLInt, true
		case TStr:
			return TLStr, true
		case TFlt:
			return TLNum, true
		}
	}
	return 0, false
}

// addLeaf registers an expression that has the given value
func (g *EGen) addLeaf(e Expr, v V) {
	if v == nil {
		g.nulls = append(g.nulls, e)
		return
	}
	if _, ok := v.(NodeRef); ok {
		g.nodes = append(g.nodes, e)
		return
	}
	if x, ok := v.(EdgePath); ok && len(x.IDs) == 1 {
		g.edges = append(g.edges, e)
		return
	}
	if t, ok := tyOf(v); ok {
		g.leaves[t] = append(g.leaves[t], e)
	}
}

func (g *EGen) chance(p float64) bool { return g.rng.Float64() < p }

var strPool = []string{"", "a", "b", "ab", "abc", "aab", "hello", "Hello", "hello world", "é", "日本", "naïve", "a'b", `a"b`, `back\slash`, "tab\there", "nl\nx", "😀x", "Zz", " pad ", "a b c", "x,y,z", "10", "9", "-7", "2.5", "true", "null", "`q`", "A", "B", "zebra", "apple", "Apple", "ﬀ", "ab ab ab", "aaaa", "//not a comment", "/* no */", "$p", "{x}", "%", "\u00a0x", "é́"}

func genStr(rng *rand.Rand) string {
	switch rng.Intn(12) {
	case 0:
		n := rng.Intn(12)
		rs := make([]rune, n)
		pool := []rune("abcXYZ019 _-éßλЖ日😀\ue000\uffe5\ufeff\U0010fffd'\"\\`\n\t.,")
		for i := range rs {
			rs[i] = pool[rng.Intn(len(pool))]
		}
		return string(rs)
	case 1:
		if rng.Intn(8) == 0 {
			return strings.Repeat([]string{"ab", "x", "日", "long "}[rng.Intn(4)], 20+rng.Intn(200))
		}
	}
	return strPool[rng.Intn(len(strPool))]
}

func (g *EGen) genInt() int {
	if g.chance(g.bigP) {
		big := []int{1 << 31, 1<<31 - 1, -(1 << 31), 1 << 32, 1 << 53, 1<<53 + 1, 1<<62 - 1, 1 << 62, -(1 << 62), 9223372036854775807, -9223372036854775807, 1000000007, 65536, 255, 256, 10000, 1 << 40, 1<<40 + 1, 4294967297}
		return big[g.rng.Intn(len(big))]
	}
	switch g.rng.Intn(6) {
	case 0:
		return g.rng.Intn(200) - 100
	case 1:
		return g.rng.Intn(3) - 1
	}
	return g.rng.Intn(14) - 4
}

func (g *EGen) genFloat() float64 {
	pool := []float64{0.5, 1.5, 2.0, 2.5, -1.5, 0.25, 3.0, 100.75, 0.1, 0.2, 1e10, 1e-7, 7.0, -0.125, 3.14159, 1e3, 0.0, 1.0, -2.0, 12345.678, 1e15, 4.9e-3}
	if g.rng.Intn(5) == 0 {
		return float64(g.rng.Intn(2001)-1000) / 8
	}
	return pool[g.rng.Intn(len(pool))]
}

func (g *EGen) genDate() RDate {
	if g.rng.Intn(8) == 0 {
		// dates whose midnight, or that, some zones skip
		ds := []RDate{{2018, 11, 4}, {2017, 10, 15}, {2016, 10, 16}, {2020, 3, 8}, {2019, 3, 10}, {2019, 10, 6}, {2011, 12, 28}, {2020, 3, 27}}
		return ds[g.rng.Intn(len(ds))]
	}
	switch g.rng.Intn(4) {
	case 0:
		return RDate{1900 + g.rng.Intn(200), 1 + g.rng.Intn(12), 1 + g.rng.Intn(28)}
	case 1:
		ds := []RDate{{2020, 2, 28}, {2020, 1, 1}, {2019, 12, 28}, {2021, 3, 1}, {1999, 12, 1}, {2000, 2, 28}, {1970, 1, 1}, {1969, 12, 28}}
		return ds[g.rng.Intn(len(ds))]
	}
	return RDate{2018 + g.rng.Intn(5), 1 + g.rng.Intn(12), 1 + g.rng.Intn(28)}
}
func (g *EGen) genNanos() int64 {
	switch g.rng.Intn(4) {
	case 0:
		return 0
	case 1:
		return 86400e9 - 1
	case 2:
		return int64(g.rng.Intn(86400)) * 1e9
	}
	return g.rng.Int63n(86400e9)
}
func (g *EGen) genDur() RDur {
	r := func(n int) int64 {
		if g.rng.Intn(3) == 0 {
			return 0
		}
		return int64(g.rng.Intn(2*n+1) - n)
	}
	d := RDur{r(30), r(60), r(100000), int(r(999999999))}
	if g.rng.Intn(8) == 0 {
		d.Secs = r(8500000000)
	}
	if g.rng.Intn(12) == 0 {
		d.Days = r(100000)
	}
	if g.rng.Intn(3) == 0 {
		d.Nanos = 0
	}
	return d
}

// genValue makes a random value of the type
func (g *EGen) genValue(t Ty) V {
	n := func() int {
		if g.rng.Intn(30) == 0 {
			return 20 + g.rng.Intn(60)
		}
		return g.rng.Intn(5)
	}
	switch t {
	case TInt:
		return g.genInt()
	case TFlt:
		return g.genFloat()
	case TStr:
		return genStr(g.rng)
	case TBool:
		return g.rng.Intn(2) == 0
	case TLInt:
		l := List{}
		for i := n(); i > 0; i-- {
			l = append(l, g.genInt())
		}
		return l
	case TLStr:
		l := List{}
		for i := n(); i > 0; i-- {
			l = append(l, genStr(g.rng))
		}
		return l
	case TLNum:
		l := List{}
		for i := n(); i > 0; i-- {
			if g.rng.Intn(2) == 0 {
				l = append(l, g.genInt())
			} else {
				l = append(l, g.genFloat())
			}
		}
		return l
	case TMap:
		m := Map{}
		n, large := many(g.rng, g.rng.Intn(4))
		for i := n; i > 0; i-- {
			if large {
				m["k"+strconv.Itoa(i)] = g.genInt()
				continue
			}
			m[keyPool[g.rng.Intn(len(keyPool))]] = g.genValue(Ty(g.rng.Intn(int(TLNum))))
		}
		return m
	case TDate:
		return g.genDate()
	case TLT:
		return RLT{g.genNanos()}
	case TLDT:
		for {
			if v := (RLDT{g.genDate(), g.genNanos()}); v.exists() {
				return v
			}
		}
	case TDur:
		return g.genDur()
	}
	panic("harness: genValue")
}

var keyPool = []string{"a", "b", "x", "name", "year", "key with space", "case", "Return", "k1"}

// leaf makes an expression without operators
func (g *EGen) leaf(t Ty) Expr {
	if g.chance(g.nullP) {
		if len(g.nulls) > 0 && g.rng.Intn(2) == 0 {
			return g.nulls[g.rng.Intn(len(g.nulls))]
		}
		return Lit{nil}
	}
	if l := g.leaves[t]; len(l) > 0 && (g.chance(g.envP) || t > TDate) {
		return l[g.rng.Intn(len(l))]
	}
	switch t {
	case TDate:
		d := g.genDate()
		if g.rng.Intn(2) == 0 {
			return Func{"date", []Expr{Lit{dateText(d, g.rng)}}}
		}
		m := MapE{}
		for _, k := range g.rng.Perm(3) {
			m.Keys = append(m.Keys, []string{"year", "month", "day"}[k])
			m.Vals = append(m.Vals, Lit{[]int{d.Y, d.M, d.D}[k]})
		}
		return Func{"date", []Expr{m}}
	case TLT, TLDT, TDur:
		return Lit{nil} // cannot be written in the language
	}
	return g.litOf(g.genValue(t))
}

func dateText(d RDate, rng *rand.Rand) string {
	pad := func(n int) string {
		s := strconv.Itoa(n)
		if len(s) < 2 && rng.Intn(2) == 0 {
			s = "0" + s
		}
		return s
	}
	s := strconv.Itoa(d.Y)
	for len(s) < 4 {
		s = "0" + s
	}
	if d.D == 1 {
		if d.M == 1 && rng.Intn(4) == 0 {
			return s
		}
		if rng.Intn(4) == 0 {
			return s + "-" + pad(d.M)
		}
	}
	return s + "-" + pad(d.M) + "-" + pad(d.D)
}

// litOf writes a value as an expression
func (g *EGen) litOf(v V) Expr {
	switch t := v.(type) {
	case List:
		l := ListE{}
		for _, x := range t {
			l.Items = append(l.Items, g.litOf(x))
		}
		return l
	case Map:
		m := MapE{}
		ks := make([]string, 0)
		for k := range t {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			m.Keys = append(m.Keys, k)
			m.Vals = append(m.Vals, g.litOf(t[k]))
		}
		return m
	}
	return Lit{v}
}

type prod struct {
	tag string
	f   func(d int) Expr
}

func (g *EGen) pick(ps []prod, d int) Expr {
	total := 0
	for _, p := range ps {
		total += g.weight(p.tag)
	}
	if total == 0 {
		return nil
	}
	n := g.rng.Intn(total)
	for _, p := range ps {
		n -= g.weight(p.tag)
		if n < 0 {
			return p.f(d)
		}
	}
	return nil
}
func (g *EGen) weight(tag string) int {
	if w, ok := g.w[tag]; ok {
		return w
	}
	if w, ok := g.w["*"]; ok {
		return w
	}
	return 1
}

func (g *EGen) num(d int) Expr {
	if g.rng.Intn(3) == 0 {
		return g.gen(TFlt, d)
	}
	return g.gen(TInt, d)
}

var cmpOps = []string{"=", "<>", "<", "<=", ">", ">="}

// gen makes an expression of the type (or null)
func (g *EGen) gen(t Ty, d int) Expr {
	if g.wrongP > 0 && g.chance(g.wrongP) {
		return g.leaf(Ty(g.rng.Intn(int(TDate))))
	}
	if d <= 0 || g.rng.Intn(8) == 0 {
		return g.leaf(t)
	}
	var ps []prod
	add := func(tag string, f func(d int) Expr) { ps = append(ps, prod{tag, f}) }
	r := g.rng
	sub := func(d int) int { return d - 1 - r.Intn(2)/1*0 }
	_ = sub
	add("paren", func(d int) Expr {
		e := g.gen(t, d-1)
		switch e.(type) {
		case Var, Param, MapE, HasLabels:
			return e
		}
		return Paren{e}
	})
	add("case", func(d int) Expr { return g.genCase(t, d) })
	add("elem", func(d int) Expr { return g.genElem(t, d) })
	switch t {
	case TInt:
		ops := []string{"+", "-", "*", "/", "%", "+", "-", "*"}
		add("arith", func(d int) Expr { return g.chain(ops, TInt, d) })
		add("arith", func(d int) Expr { return g.chain(ops, TInt, d) })
		add("arith", func(d int) Expr { return g.chain(ops, TInt, d) })
		add("unary", func(d int) Expr { return Un{"-", g.gen(TInt, d-1)} })
		add("unaryp", func(d int) Expr { return Un{"+", g.gen(TInt, d-1)} })
		add("size", func(d int) Expr {
			return Func{"size", []Expr{g.gen([]Ty{TStr, TLInt, TLStr}[r.Intn(3)], d-1)}}
		})
		add("toint", func(d int) Expr {
			f := []string{"toInteger", "toIntegerOrNull"}[r.Intn(2)]
			switch r.Intn(4) {
			case 0:
				return Func{f, []Expr{Lit{strconv.Itoa(g.rng.Intn(2000) - 1000)}}}
			case 1:
				return Func{f, []Expr{g.gen(TBool, d-1)}}
			case 2:
				return Func{f, []Expr{g.gen(TFlt, d-1)}}
			}
			return Func{f, []Expr{g.gen(TInt, d-1)}}
		})
	case TFlt:
		ops := []string{"+", "-", "*", "/", "%"}
		mixed := func(d int) Expr {
			op := ops[r.Intn(len(ops))]
			a, b := g.gen(TFlt, d-1), g.num(d-1)
			if r.Intn(2) == 0 {
				a, b = b, a
			}
			return Bin{op, a, b}
		}
		add("arith", mixed)
		add("arith", mixed)
		add("pow", func(d int) Expr { return Bin{"^", g.num(d - 1), g.smallNum(d - 1)} })
		add("unary", func(d int) Expr { return Un{"-", g.gen(TFlt, d-1)} })
		add("tofloat", func(d int) Expr {
			f := []string{"toFloat", "toFloatOrNull"}[r.Intn(2)]
			if r.Intn(3) == 0 {
				return Func{f, []Expr{Lit{[]string{"1.5", "-2.25", "10", "0.125"}[r.Intn(4)]}}}
			}
			return Func{f, []Expr{g.num(d - 1)}}
		})
	case TStr:
		add("concat", func(d int) Expr { return Bin{"+", g.gen(TStr, d-1), g.gen(TStr, d-1)} })
		add("concat", func(d int) Expr {
			return Bin{"+", Bin{"+", g.gen(TStr, d-1), g.gen(TStr, d-1)}, g.gen(TStr, d-1)}
		})
		add("strfn", func(d int) Expr {
			switch r.Intn(5) {
			case 0:
				return Func{[]string{"trim", "ltrim", "rtrim"}[r.Intn(3)], []Expr{g.gen(TStr, d-1)}}
			case 1:
				return Func{[]string{"left", "right"}[r.Intn(2)], []Expr{g.gen(TStr, d-1), g.smallInt(d)}}
			case 2:
				return Func{"substring", []Expr{g.gen(TStr, d-1), g.smallInt(d)}}
			}
			return Func{"substring", []Expr{g.gen(TStr, d-1), g.smallInt(d), g.smallInt(d)}}
		})
		if len(g.edges) > 0 {
			add("type", func(d int) Expr { return Func{"type", []Expr{g.edges[r.Intn(len(g.edges))]}} })
		}
	case TBool:
		add("cmp", func(d int) Expr { return g.genCmp(d) })
		add("cmp", func(d int) Expr { return g.genCmp(d) })
		add("logic", func(d int) Expr {
			n, large := many(r, 2+r.Intn(3))
			l := Logic{Op: []string{"AND", "OR", "XOR"}[r.Intn(3)]}
			for i := 0; i < n; i++ {
				if large {
					d = 1
				}
				l.Parts = append(l.Parts, g.gen(TBool, d-1))
			}
			return l
		})
		add("logic", func(d int) Expr {
			return Logic{Op: []string{"AND", "OR", "XOR"}[r.Intn(3)], Parts: []Expr{g.gen(TBool, d-1), g.gen(TBool, d-1)}}
		})
		add("not", func(d int) Expr { return Not{g.gen(TBool, d-1)} })
		add("isnull", func(d int) Expr {
			var e Expr = g.gen(Ty(r.Intn(int(TDate))), d-1)
			if r.Intn(4) == 0 {
				e = Lit{nil}
			}
			return IsNull{e, r.Intn(2) == 0}
		})
		add("in", func(d int) Expr {
			if g.nullP > 0 && r.Intn(3) == 0 {
				// a literal list with nulls at any place
				ty := []Ty{TInt, TInt, TStr, TBool, TFlt}[r.Intn(5)]
				x := g.leaf(ty)
				l := ListE{}
				for i := 2 + r.Intn(6); i > 0; i-- {
					switch r.Intn(5) {
					case 0:
						l.Items = append(l.Items, Lit{nil})
					case 1:
						l.Items = append(l.Items, x)
					default:
						l.Items = append(l.Items, g.leaf(ty))
					}
				}
				return In{x, l}
			}
			switch r.Intn(4) {
			case 0:
				return In{g.gen(TStr, d-1), g.gen(TLStr, d-1)}
			case 1:
				// mixed numbers
				return In{g.num(d - 1), g.gen(TLNum, d-1)}
			case 2:
				if g.nullP > 0 {
					l := g.gen(TLInt, d-1)
					return In{g.gen(TInt, d-1), ListE{[]Expr{Lit{nil}, Index{l, Lit{0}}}}}
				}
			}
			return In{g.gen(TInt, d-1), g.gen(TLInt, d-1)}
		})
		add("strop", func(d int) Expr {
			return StrOp{[]string{"STARTS WITH", "ENDS WITH", "CONTAINS"}[r.Intn(3)], g.gen(TStr, d-1), g.gen(TStr, d-1)}
		})
		if len(g.nodes) > 0 {
			add("label", func(d int) Expr {
				h := HasLabels{g.nodes[r.Intn(len(g.nodes))], []string{labelPool[r.Intn(len(labelPool))]}}
				for r.Intn(4) == 0 {
					h.Labels = append(h.Labels, labelPool[r.Intn(len(labelPool))])
				}
				return h
			})
		}
	case TLInt, TLStr, TLNum:
		et := TInt
		if t == TLStr {
			et = TStr
		}
		add("list", func(d int) Expr {
			l := ListE{}
			n, large := many(r, r.Intn(4))
			for i := n; i > 0; i-- {
				if large {
					d = 1
				}
				if t == TLNum && r.Intn(2) == 0 {
					l.Items = append(l.Items, g.gen(TFlt, d-1))
				} else {
					l.Items = append(l.Items, g.gen(et, d-1))
				}
			}
			return l
		})
		add("lconcat", func(d int) Expr { return Bin{"+", g.gen(t, d-1), g.gen(t, d-1)} })
		add("slice", func(d int) Expr {
			s := Slice{L: g.gen(t, d-1)}
			if r.Intn(4) > 0 {
				s.From = g.smallInt(d)
			}
			if r.Intn(4) > 0 {
				s.To = g.smallInt(d)
			}
			return s
		})
		if t == TLInt {
			add("range", func(d int) Expr {
				a := []Expr{g.smallInt(d), g.smallInt(d)}
				if r.Intn(2) == 0 {
					a = append(a, Lit{[]int{1, 2, 3, -1, -2}[r.Intn(5)]})
				}
				return Func{"range", a}
			})
		}
		if t == TLStr {
			add("split", func(d int) Expr {
				return Func{"split", []Expr{g.gen(TStr, d-1), Lit{[]string{",", " ", "a", "ab", "日"}[r.Intn(5)]}}}
			})
		}
	case TMap:
		add("map", func(d int) Expr {
			m := MapE{}
			used := map[string]bool{}
			n, large := many(r, r.Intn(4))
			for i := n; i > 0; i-- {
				k := keyPool[r.Intn(len(keyPool))]
				if large {
					k, d = "k"+strconv.Itoa(i), 1
				}
				if used[k] {
					continue
				}
				used[k] = true
				m.Keys = append(m.Keys, k)
				m.Vals = append(m.Vals, g.gen(Ty(r.Intn(int(TDate))), d-1))
			}
			return m
		})
	case TDate, TLT, TLDT:
		add("temporal", func(d int) Expr {
			if r.Intn(3) == 0 {
				return Bin{"+", g.gen(TDur, d-1), g.gen(t, d-1)}
			}
			return Bin{[]string{"+", "-"}[r.Intn(2)], g.gen(t, d-1), g.gen(TDur, d-1)}
		})
	case TDur:
		add("temporal", func(d int) Expr {
			switch r.Intn(5) {
			case 0:
				return Bin{"*", g.gen(TDur, d-1), Lit{r.Intn(7) - 3}}
			case 1:
				return Bin{"*", Lit{r.Intn(7) - 3}, g.gen(TDur, d-1)}
			case 2:
				return Bin{"/", g.gen(TDur, d-1), Lit{1 + r.Intn(4)}}
			case 3:
				f := []float64{2.0, 0.5, 1.5, -1.0, 4.0}[r.Intn(5)]
				switch r.Intn(3) {
				case 0:
					return Bin{"*", Lit{f}, g.gen(TDur, d-1)}
				case 1:
					return Bin{"/", g.gen(TDur, d-1), Lit{f}}
				}
				return Bin{"*", g.gen(TDur, d-1), Lit{f}}
			}
			return Bin{[]string{"+", "-"}[r.Intn(2)], g.gen(TDur, d-1), g.gen(TDur, d-1)}
		})
	}
	if e := g.pick(ps, d); e != nil {
		return e
	}
	return g.leaf(t)
}

func (g *EGen) smallInt(d int) Expr {
	if g.nullP > 0 && g.chance(g.nullP/2) {
		return Lit{nil}
	}
	if len(g.smalls) > 0 && g.rng.Intn(3) == 0 {
		return g.smalls[g.rng.Intn(len(g.smalls))]
	}
	if g.rng.Intn(5) == 0 {
		return Bin{"+", Lit{g.rng.Intn(3)}, Lit{g.rng.Intn(3)}}
	}
	if g.rng.Intn(15) == 0 {
		return Lit{7 + g.rng.Intn(40)}
	}
	return Lit{g.rng.Intn(7)}
}
func (g *EGen) smallNum(d int) Expr {
	switch g.rng.Intn(4) {
	case 0:
		return Lit{[]float64{0.5, 2.0, -1.0, 1.5}[g.rng.Intn(4)]}
	case 1:
		return g.leaf(TInt)
	}
	return Lit{g.rng.Intn(5)}
}

// many is n, or sometimes much more: sizes above what a buffer, cache or
// other special treatment may be made for
func many(r *rand.Rand, n int) (int, bool) {
	if r.Intn(50) == 0 {
		return 6 + r.Intn(30), true
	}
	return n, false
}

// chain makes a flat chain of operators
func (g *EGen) chain(ops []string, t Ty, d int) Expr {
	n := 1 + g.rng.Intn(3)
	if g.rng.Intn(20) == 0 {
		n = 5 + g.rng.Intn(20)
	}
	e := g.gen(t, d-1)
	for i := 0; i < n; i++ {
		r := g.gen(t, d-1-g.rng.Intn(2))
		if n > 4 {
			r = g.leaf(t)
		}
		// right operands of equal or lower level get parentheses by the printer
		e = Bin{ops[g.rng.Intn(len(ops))], e, r}
	}
	return e
}

func (g *EGen) genCmp(d int) Expr {
	r := g.rng
	var operand func() Expr
	switch r.Intn(6) {
	case 0:
		operand = func() Expr { return g.gen(TStr, d-1) }
	case 1:
		if g.weight("cmpbool") > 0 {
			operand = func() Expr { return g.gen(TBool, d-1) }
			break
		}
		fallthrough
	case 2:
		operand = func() Expr { return g.num(d - 1) }
	case 3:
		if g.weight("cmptemporal") > 0 && len(g.leaves[TDur]) > 0 {
			t := []Ty{TDate, TLT, TLDT, TDur}[r.Intn(4)]
			operand = func() Expr { return g.gen(t, d-1) }
			break
		}
		fallthrough
	default:
		operand = func() Expr { return g.gen(TInt, d-1) }
	}
	c := Cmp{First: operand()}
	n := 1
	if r.Intn(4) == 0 {
		n = 2 + r.Intn(2)
		if r.Intn(20) == 0 {
			n, d = 4+r.Intn(8), 1
		}
	}
	for i := 0; i < n; i++ {
		c.Rest = append(c.Rest, CmpPart{cmpOps[r.Intn(6)], operand()})
	}
	return c
}

func (g *EGen) genCase(t Ty, d int) Expr {
	r := g.rng
	c := Case{}
	n, large := many(r, 1+r.Intn(3))
	if large {
		d = 1
	}
	if r.Intn(2) == 0 {
		ct := []Ty{TInt, TStr}[r.Intn(2)]
		c.Test = g.gen(ct, d-1)
		for i := 0; i < n; i++ {
			c.Whens = append(c.Whens, CaseWhen{g.gen(ct, d-1), g.gen(t, d-1)})
		}
	} else {
		for i := 0; i < n; i++ {
			c.Whens = append(c.Whens, CaseWhen{g.gen(TBool, d-1), g.gen(t, d-1)})
		}
	}
	if r.Intn(4) > 0 {
		c.Else = g.gen(t, d-1)
	}
	return c
}

// genElem takes an element of a list or a map
func (g *EGen) genElem(t Ty, d int) Expr {
	r := g.rng
	if r.Intn(3) == 0 {
		k := keyPool[r.Intn(len(keyPool))]
		m := MapE{Keys: []string{k}, Vals: []Expr{g.gen(t, d-1)}}
		if k != "x" {
			m.Keys = append(m.Keys, "x")
			m.Vals = append(m.Vals, g.gen(TInt, d-2))
		}
		return Prop{m, k}
	}
	switch t {
	case TInt:
		return Index{g.gen(TLInt, d-1), Lit{r.Intn(6) - 3}}
	case TStr:
		return Index{g.gen(TLStr, d-1), Lit{r.Intn(6) - 3}}
	}
	l := ListE{}
	n := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		l.Items = append(l.Items, g.gen(t, d-1))
	}
	return Index{l, Lit{r.Intn(n)}}
}

var labelPool = []string{"A", "B", "C", "Person"}
