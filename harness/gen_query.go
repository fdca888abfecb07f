package main

import (
	"math/rand"
	"sort"
	"strconv"
)

// scopeVar is a variable the generated query can use
type scopeVar struct {
	name string
	kind string // node, edge (a single relationship), path
	null bool   // can be null
}

// QGen generates queries over a graph
type QGen struct {
	pElem  int // extra percent of pattern properties that are all those of an element
	rng    *rand.Rand
	g      *MGraph
	params map[string]V
	scope  []scopeVar
	n      int
	wide   bool
	names  []string

	// probabilities, in percent
	pLabel, pProp, pType, pVarLen, pBound, pWhere, pOptional, pUndirected, pParam int
	anyVarLen                                                                     bool
	maxRels, maxParts                                                             int
	noPathVars                                                                    bool
	exprDepth                                                                     int
}

func NewQGen(rng *rand.Rand, g *MGraph) *QGen {
	return &QGen{rng: rng, g: g, params: map[string]V{}, pLabel: 40, pProp: 25, pType: 50, pVarLen: 0, pBound: 30, pWhere: 40, pOptional: 0, pUndirected: 25, pParam: 15, maxRels: 2, maxParts: 2, exprDepth: 2}
}

func (q *QGen) pct(p int) bool { return q.rng.Intn(100) < p }

var namePool = []string{"n", "m", "a", "b", "r", "s", "node", "rel", "N", "_x", "x1", "with space", "match", "e", "日"}

func (q *QGen) fresh() string {
	for {
		var s string
		if q.rng.Intn(3) > 0 {
			s = namePool[q.rng.Intn(len(namePool))]
		} else {
			q.n++
			s = "v" + string(rune('a'+q.n%26)) + string(rune('0'+(q.n/26)%10))
		}
		ok := true
		for _, v := range q.scope {
			ok = ok && v.name != s
		}
		for _, v := range q.names {
			ok = ok && v != s
		}
		if ok {
			q.names = append(q.names, s)
			return s
		}
	}
}

func (q *QGen) vars(kind string) []scopeVar {
	var out []scopeVar
	for _, v := range q.scope {
		if v.kind == kind {
			out = append(out, v)
		}
	}
	return out
}

func (q *QGen) add(name, kind string) {
	for _, v := range q.scope {
		if v.name == name {
			return
		}
	}
	q.scope = append(q.scope, scopeVar{name, kind, false})
}

// param makes a parameter for the value
func (q *QGen) param(v V) string {
	n := []string{"p", "q", "val", "x", "P", "1", "42", "limit", "prop_1"}[q.rng.Intn(9)]
	for {
		old, ok := q.params[n]
		if !ok {
			break
		}
		if canon(old, nil) == canon(v, nil) {
			return n
		}
		n += "_"
	}
	q.params[n] = v
	return n
}

// propExpr is an expression for an int or string property
func (q *QGen) propValue(key string, earlier []scopeVar) Expr {
	r := q.rng
	var v V
	if key == "name" {
		v = []string{"a", "b", "it's", "日"}[r.Intn(4)]
	} else {
		v = r.Intn(4)
	}
	switch {
	case q.pct(q.pParam):
		return Param{q.param(v)}
	case len(earlier) > 0 && r.Intn(4) == 0:
		return Prop{Var{earlier[r.Intn(len(earlier))].name}, key}
	case key != "name" && r.Intn(6) == 0:
		return Bin{"+", Lit{v}, Lit{0}}
	}
	return Lit{v}
}

func (q *QGen) patProps(earlier []scopeVar, edge bool) *PropsPat {
	if !q.pct(q.pProp) {
		return nil
	}
	ks := []string{"x", "x", "name", "y"}
	k := ks[q.rng.Intn(len(ks))]
	if q.pct(q.pParam / 2) {
		var v V = q.rng.Intn(4)
		if k == "name" {
			v = "a"
		}
		return &PropsPat{Param: q.param(Map{k: v})}
	}
	m := &MapE{Keys: []string{k}, Vals: []Expr{q.propValue(k, earlier)}}
	if q.rng.Intn(6) == 0 && k != "y" {
		m.Keys = append(m.Keys, "y")
		m.Vals = append(m.Vals, q.propValue("y", earlier))
	}
	switch k := q.rng.Intn(40); {
	case k == 0:
		m = &MapE{} // {}
	case k < 5 || q.pct(q.pElem):
		if m := q.elementProps(edge); m != nil {
			if q.pct(q.pParam) {
				pm := Map{}
				for i, k := range m.Keys {
					pm[k] = m.Vals[i].(Lit).V
				}
				return &PropsPat{Param: q.param(pm)}
			}
			return &PropsPat{Map: m}
		}
	}
	return &PropsPat{Map: m}
}

// elementProps is about all that a node or relationship of the graph has
func (q *QGen) elementProps(edge bool) *MapE {
	r := q.rng
	if q.g == nil || len(q.g.norder) == 0 {
		return nil
	}
	var props map[string]V
	for i := 1 + r.Intn(3); i > 0; i-- {
		p := q.g.nodes[q.g.norder[r.Intn(len(q.g.norder))]].props
		if edge && len(q.g.eorder) > 0 {
			p = q.g.edges[q.g.eorder[r.Intn(len(q.g.eorder))]].props
		}
		if len(p) >= len(props) {
			props = p
		}
	}
	m := &MapE{}
	add := func(k string, v V) {
		switch v.(type) {
		case int, string:
			m.Keys, m.Vals = append(m.Keys, k), append(m.Vals, Lit{v})
		}
	}
	for _, k := range []string{"x", "name", "y"} {
		add(k, props[k])
	}
	for i := 1; i < 28; i++ {
		k := "k" + strconv.Itoa(i)
		add(k, props[k])
	}
	if len(m.Keys) < 2 {
		return nil
	}
	r.Shuffle(len(m.Keys), func(i, j int) {
		m.Keys[i], m.Keys[j] = m.Keys[j], m.Keys[i]
		m.Vals[i], m.Vals[j] = m.Vals[j], m.Vals[i]
	})
	if r.Intn(3) == 0 { // one that differs
		i := r.Intn(len(m.Vals))
		if x, ok := m.Vals[i].(Lit).V.(int); ok {
			m.Vals[i] = Lit{(x + 1) % 4}
		} else {
			m.Vals[i] = Lit{[]string{"a", "b"}[r.Intn(2)]}
		}
	}
	return m
}

func (q *QGen) labels(max int) []string {
	if !q.pct(q.pLabel) {
		return nil
	}
	return q.labelList(max)
}

// labelList is one or two labels, or sometimes many, or about those
// that a node of the graph has
func (q *QGen) labelList(max int) []string {
	r := q.rng
	var ls []string
	if max > 1 {
		switch r.Intn(10) {
		case 0:
			if q.g != nil && len(q.g.norder) > 0 {
				n := q.g.nodes[q.g.norder[r.Intn(len(q.g.norder))]]
				ls = sortedLabels(n)
				r.Shuffle(len(ls), func(i, j int) { ls[i], ls[j] = ls[j], ls[i] })
				if len(ls) == 0 || r.Intn(3) == 0 {
					ls = append(ls, labelPool[r.Intn(len(labelPool))])
				}
				return uniqueStrings(ls)
			}
		case 1:
			for i := 3 + r.Intn(5); i > 0; i-- {
				ls = append(ls, largeLabelPool[r.Intn(len(largeLabelPool))])
			}
			return uniqueStrings(ls)
		}
	}
	n := 1
	if max > 1 && r.Intn(4) == 0 {
		n = 2
	}
	for i := 0; i < n; i++ {
		l := labelPool[r.Intn(len(labelPool))]
		if r.Intn(12) > 0 {
			l = labelPool[r.Intn(3)]
		}
		ls = append(ls, l)
	}
	return uniqueStrings(ls)
}

var largeLabelPool = append([]string{"A", "B", "C", "A", "B", "C"}, "Person", "L1", "L2", "L3", "L4")

func sortedLabels(n *MNode) []string {
	ls := make([]string, 0, len(n.labels))
	for l := range n.labels {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	return ls
}

// uniqueStrings keeps the first of equal strings
func uniqueStrings(ls []string) []string {
	seen := map[string]bool{}
	out := ls[:0]
	for _, l := range ls {
		if !seen[l] {
			seen[l] = true
			out = append(out, l)
		}
	}
	return out
}

// matchPart makes a pattern part. Earlier variables are those that
// properties can refer to
func (q *QGen) matchPart() Part {
	r := q.rng
	earlier := q.vars("node")
	var nonNull []scopeVar
	for _, v := range earlier {
		if !v.null {
			nonNull = append(nonNull, v)
		}
	}
	var p Part
	nrel := 0
	if q.maxRels > 0 {
		nrel = r.Intn(q.maxRels + 1)
	}
	local := []string{}
	node := func() NodePat {
		n := NodePat{}
		switch {
		case len(earlier) > 0 && q.pct(q.pBound):
			n.Var = earlier[r.Intn(len(earlier))].name
		case len(local) > 0 && r.Intn(8) == 0:
			n.Var = local[r.Intn(len(local))]
		case r.Intn(4) > 0:
			n.Var = q.fresh()
			local = append(local, n.Var)
		}
		n.Labels = q.labels(2)
		n.Props = q.patProps(nonNull, false)
		return n
	}
	p.Nodes = append(p.Nodes, node())
	type rv struct{ name, kind string }
	var rels []rv
	usedBound := map[string]bool{}
	for i := 0; i < nrel; i++ {
		rp := RelPat{Dir: 1 + r.Intn(2), Bare: r.Intn(3) > 0, Colon: r.Intn(3) == 0}
		if q.pct(q.pUndirected) {
			rp.Dir = []int{0, 0, 3}[r.Intn(3)]
		}
		if q.pct(q.pType) {
			rp.Types = []string{typePool[r.Intn(len(typePool))]}
			if r.Intn(3) == 0 {
				if r.Intn(10) == 0 {
					rp.Types = []string{"T1", "T2", "T3", "T4", "T5", "T6"}[:2+r.Intn(5)]
				}
				for _, k := range r.Perm(len(typePool))[:1+r.Intn(len(typePool))] {
					if t := typePool[k]; t != rp.Types[0] {
						rp.Types = append(rp.Types, t)
					}
				}
			}
		}
		if q.pct(q.pProp / 2) {
			rp.Props = q.patProps(nonNull, true)
		}
		if q.pct(q.pVarLen) && (i == 0 || q.anyVarLen) {
			rp.Range = &RangeLit{From: -1, To: -1}
			switch r.Intn(6) {
			case 0:
			case 1:
				rp.Range.From = 1 + r.Intn(3)
			case 2:
				rp.Range.From, rp.Range.Dots = 1+r.Intn(2), true
			case 3:
				rp.Range.To, rp.Range.Dots = 1+r.Intn(3), true
			default:
				rp.Range.From, rp.Range.Dots = 1+r.Intn(2), true
				rp.Range.To = rp.Range.From + r.Intn(3)
			}
		}
		bound := q.vars("edge")
		switch {
		case rp.Range == nil && len(bound) > 0 && r.Intn(3) == 0:
			b := bound[r.Intn(len(bound))]
			if !usedBound[b.name] && !b.null {
				rp.Var = b.name
				usedBound[b.name] = true
			}
		case r.Intn(2) == 0:
			rp.Var = q.fresh()
			k := "edge"
			if rp.Range != nil {
				k = "path"
			}
			rels = append(rels, rv{rp.Var, k})
		}
		p.Rels = append(p.Rels, rp)
		p.Nodes = append(p.Nodes, node())
	}
	for _, n := range local {
		q.add(n, "node")
	}
	for _, x := range rels {
		q.add(x.name, x.kind)
	}
	if r.Intn(15) == 0 {
		p.Parens = 1
	}
	return p
}

func (q *QGen) egen() *EGen {
	e := NewEGen(q.rng)
	e.nullP = 0.03
	e.bigP = 0.01
	for _, v := range q.scope {
		switch v.kind {
		case "node", "edge":
			if v.kind == "node" {
				e.nodes = append(e.nodes, Var{v.name})
			} else if !v.null {
				e.edges = append(e.edges, Var{v.name})
			}
			e.leaves[TInt] = append(e.leaves[TInt], Prop{Var{v.name}, "x"}, Prop{Var{v.name}, "x"}, Prop{Var{v.name}, "y"})
			e.leaves[TStr] = append(e.leaves[TStr], Prop{Var{v.name}, "name"})
			if q.wide {
				e.leaves[TFlt] = append(e.leaves[TFlt], Prop{Var{v.name}, "f"})
				e.leaves[TBool] = append(e.leaves[TBool], Prop{Var{v.name}, "b"})
				e.leaves[TLInt] = append(e.leaves[TLInt], Prop{Var{v.name}, "l"})
				e.leaves[TLStr] = append(e.leaves[TLStr], Prop{Var{v.name}, "ls"})
				e.leaves[TInt] = append(e.leaves[TInt], Prop{Var{v.name}, "big"})
				e.leaves[TStr] = append(e.leaves[TStr], Prop{Var{v.name}, "str"})
			}
		}
	}
	for _, k := range sortedKeys(q.params) {
		v := q.params[k]
		if _, isMap := v.(Map); !isMap {
			e.addLeaf(Param{k}, v)
		}
	}
	return e
}

func (q *QGen) match(optional bool) Match {
	m := Match{Optional: optional}
	before := len(q.scope)
	n := 1
	if q.maxParts > 1 {
		n += q.rng.Intn(q.maxParts)
	}
	for i := 0; i < n; i++ {
		m.Parts = append(m.Parts, q.matchPart())
	}
	if q.pct(q.pWhere) {
		m.Where = q.where()
	}
	if optional {
		for i := before; i < len(q.scope); i++ {
			q.scope[i].null = true
		}
	}
	return m
}

// where: a boolean expression, mostly about the variables
func (q *QGen) where() Expr {
	e := q.egen()
	e.envP = 0.8
	if q.rng.Intn(3) > 0 {
		// a simple predicate, so that some rows remain
		switch q.rng.Intn(4) {
		case 0:
			return Cmp{First: e.leaf(TInt), Rest: []CmpPart{{cmpOps[q.rng.Intn(6)], e.leaf(TInt)}}}
		case 1:
			return IsNull{e.leaf(TInt), q.rng.Intn(2) == 0}
		case 2:
			ns := q.vars("node")
			if len(ns) > 0 {
				return HasLabels{Var{ns[q.rng.Intn(len(ns))].name}, q.labelList(2)}
			}
		}
		return Logic{[]string{"AND", "OR"}[q.rng.Intn(2)], []Expr{e.gen(TBool, 1), e.gen(TBool, 1)}}
	}
	return e.gen(TBool, q.exprDepth)
}

// retAll returns every variable and some properties
func (q *QGen) retAll() *Return {
	ret := &Return{}
	for _, v := range q.scope {
		ret.Items = append(ret.Items, RetItem{E: Var{v.name}, Alias: q.maybeAlias()})
	}
	if len(ret.Items) == 0 {
		ret.Items = []RetItem{{E: Lit{1}}}
	}
	return ret
}

func (q *QGen) maybeAlias() string {
	if q.rng.Intn(2) == 0 {
		return ""
	}
	return q.aliasName()
}

func (q *QGen) aliasName() string {
	n := "c" + string(rune('a'+q.n%26)) + string(rune('0'+(q.n/26)%10))
	q.n++
	return n
}
