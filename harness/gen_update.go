package main

import "strconv"

// nonNullNodes: node variables that cannot be null
func (q *QGen) nonNull(kind string) []scopeVar {
	var out []scopeVar
	for _, v := range q.vars(kind) {
		if !v.null {
			out = append(out, v)
		}
	}
	return out
}

// storeValue is an expression whose value can be stored in a property.
// Properties keep their types: x and y are ints, name is a string
func (q *QGen) storeValue(key string) Expr {
	r := q.rng
	e := q.egen()
	e.nullP = 0
	e.envP = 0.5
	if r.Intn(10) == 0 {
		return Lit{nil}
	}
	ty := TInt
	switch key {
	case "name", "str":
		ty = TStr
	case "f":
		ty = TFlt
	case "b":
		ty = TBool
	case "l":
		ty = TLInt
	case "ls":
		ty = TLStr
	case "m":
		ty = TMap
	case "any":
		ty = Ty(r.Intn(int(TDate)))
	case "t":
		v := e.genValue([]Ty{TDate, TLT, TLDT, TDur}[r.Intn(4)])
		return Param{q.param(v)}
	}
	if q.pct(q.pParam) && (ty == TInt || ty == TStr) {
		if ty == TInt {
			return Param{q.param(r.Intn(5))}
		}
		return Param{q.param(genStr(r))}
	}
	if ty == TInt && key != "any" && r.Intn(2) == 0 {
		return Lit{r.Intn(5)}
	}
	return e.gen(ty, r.Intn(3))
}

var storeKeys = []string{"x", "x", "x", "name", "name", "y", "f", "b", "l", "ls", "str", "any", "t", "with space", "case"}

func (q *QGen) storeKey() string {
	if !q.wide {
		return []string{"x", "x", "name", "y"}[q.rng.Intn(4)]
	}
	return storeKeys[q.rng.Intn(len(storeKeys))]
}

func (q *QGen) storeMap(max int) MapE {
	m := MapE{}
	used := map[string]bool{}
	n, large := many(q.rng, q.rng.Intn(max+1))
	for i := n; i > 0; i-- {
		k := q.storeKey()
		if large && i > 4 {
			k = "k" + strconv.Itoa(i)
			m.Keys = append(m.Keys, k)
			m.Vals = append(m.Vals, Lit{i})
			continue
		}
		if used[k] {
			continue
		}
		used[k] = true
		m.Keys = append(m.Keys, k)
		m.Vals = append(m.Vals, q.storeValue(k))
	}
	return m
}

func (q *QGen) createProps() *PropsPat {
	r := q.rng
	switch r.Intn(5) {
	case 0, 1:
		return nil
	case 2:
		if q.pct(q.pParam) {
			v := Map{}
			e := NewEGen(r)
			for i := r.Intn(4); i > 0; i-- {
				switch k := q.storeKey(); k {
				case "x", "y":
					v[k] = r.Intn(4)
				case "name":
					v[k] = "a"
				case "any":
					v[k] = e.genValue(Ty(r.Intn(int(nTypes))))
				}
			}
			if r.Intn(4) == 0 {
				v["nul"] = nil
			}
			return &PropsPat{Param: q.param(v)}
		}
	}
	m := q.storeMap(3)
	return &PropsPat{Map: &m}
}

// createPart makes a pattern to create
func (q *QGen) createPart() Part {
	r := q.rng
	var p Part
	bound := q.nonNull("node")
	type nv struct{ name, kind string }
	var local []nv
	inPart := []string{}
	node := func(must bool) NodePat {
		n := NodePat{}
		switch {
		case len(bound) > 0 && (must || q.pct(q.pBound)):
			n.Var = bound[r.Intn(len(bound))].name
			return n
		case len(inPart) > 0 && r.Intn(6) == 0:
			n.Var = inPart[r.Intn(len(inPart))]
			return n
		case r.Intn(3) > 0:
			n.Var = q.fresh()
			local = append(local, nv{n.Var, "node"})
			inPart = append(inPart, n.Var)
		}
		n.Labels = q.labels(2)
		n.Props = q.createProps()
		return n
	}
	k := 0
	if q.maxRels > 0 {
		k, _ = many(r, r.Intn(q.maxRels+1))
		if k > 12 {
			k = 12
		}
	}
	p.Nodes = append(p.Nodes, node(false))
	for i := 0; i < k; i++ {
		rp := RelPat{Dir: 1 + r.Intn(2)}
		if r.Intn(8) > 0 {
			rp.Types = []string{typePool[r.Intn(len(typePool))]}
			if r.Intn(20) == 0 {
				rp.Types[0] = []string{"match", "a b", "X9", "日"}[r.Intn(4)]
			}
		}
		rp.Props = q.createProps()
		if r.Intn(2) == 0 {
			rp.Var = q.fresh()
			local = append(local, nv{rp.Var, "edge"})
		}
		p.Rels = append(p.Rels, rp)
		p.Nodes = append(p.Nodes, node(false))
	}
	if k > 0 && r.Intn(8) == 0 {
		p.PathVar = q.fresh()
		local = append(local, nv{p.PathVar, "path"})
	}
	for _, v := range local {
		q.add(v.name, v.kind)
	}
	return p
}

func (q *QGen) create(maxParts int) Create {
	c := Create{}
	n, _ := many(q.rng, 1+q.rng.Intn(maxParts))
	for i := n; i > 0; i-- {
		c.Parts = append(c.Parts, q.createPart())
	}
	return c
}

// spoilCreate makes a part of the clause unsupported or inconsistent
func (q *QGen) spoilCreate(c Create) {
	r := q.rng
	p := &c.Parts[r.Intn(len(c.Parts))]
	any := func(kinds ...string) string {
		var out []string
		for _, k := range kinds {
			for _, v := range q.vars(k) {
				out = append(out, v.name)
			}
		}
		if len(out) == 0 {
			return ""
		}
		return out[r.Intn(len(out))]
	}
	k := r.Intn(6)
	if k < 3 || len(p.Rels) == 0 {
		n := &p.Nodes[r.Intn(len(p.Nodes))]
		switch r.Intn(4) {
		case 0: // labels of a bound node
			if v := any("node"); v != "" {
				n.Var, n.Labels, n.Props = v, []string{labelPool[r.Intn(3)]}, nil
			}
		case 1: // properties of a bound node
			if v := any("node"); v != "" {
				n.Var, n.Labels, n.Props = v, nil, &PropsPat{Map: &MapE{Keys: []string{"x"}, Vals: []Expr{Lit{1}}}}
			}
		case 2: // not a node
			if v := any("edge", "path"); v != "" {
				n.Var, n.Labels, n.Props = v, nil, nil
			}
		case 3: // properties that are no map, or unknown
			if r.Intn(2) == 0 {
				n.Props = &PropsPat{Param: "nosuchparameter"}
			} else {
				n.Props = &PropsPat{Map: &MapE{Keys: []string{"x"}, Vals: []Expr{Bin{"/", Lit{1}, Lit{0}}}}}
			}
		}
		return
	}
	e := &p.Rels[r.Intn(len(p.Rels))]
	switch k {
	case 3: // several types
		e.Types = []string{"R", "S"}
	case 4: // a length
		e.Range = &RangeLit{From: 1 + r.Intn(2), To: 2, Dots: true}
	case 5: // a bound variable
		if v := any("edge", "node", "path"); v != "" {
			e.Var = v
		}
	}
}

func (q *QGen) setItem() SetItem {
	r := q.rng
	ns := q.vars("node")
	n := ns[r.Intn(len(ns))].name
	switch r.Intn(10) {
	case 0, 1:
		ls := []string{}
		cnt, large := many(r, 1+r.Intn(2))
		for i := cnt; i > 0; i-- {
			l := labelPool[r.Intn(len(labelPool))]
			if large {
				l = "L" + strconv.Itoa(i)
			}
			ls = append(ls, l)
		}
		if !large && r.Intn(3) == 0 {
			ls = q.labelList(2)
		}
		return SetItem{Kind: "labels", Var: n, Labels: ls, E: Lit{1}}
	case 2, 3, 4:
		it := SetItem{Kind: []string{"=", "+="}[r.Intn(2)], Var: n}
		switch r.Intn(5) {
		case 0:
			others := q.nonNull("node")
			if len(others) > 0 {
				it.E = Var{others[r.Intn(len(others))].name}
				return it
			}
		case 1:
			v := Map{}
			for _, k := range []string{"x", "y"} {
				if r.Intn(2) == 0 {
					v[k] = r.Intn(5)
				} else if r.Intn(3) == 0 {
					v[k] = nil
				}
			}
			it.E = Param{q.param(v)}
			return it
		}
		it.E = q.storeMap(3)
		return it
	}
	k := q.storeKey()
	return SetItem{Kind: "prop", Target: Var{n}, Key: k, E: q.storeValue(k)}
}

func (q *QGen) set() SetC {
	c := SetC{}
	n, _ := many(q.rng, 1+q.rng.Intn(3))
	for i := n; i > 0; i-- {
		c.Items = append(c.Items, q.setItem())
	}
	return c
}

func (q *QGen) remove() RemoveC {
	r := q.rng
	c := RemoveC{}
	ns := q.vars("node")
	cnt, _ := many(r, 1+r.Intn(2))
	for i := cnt; i > 0; i-- {
		n := ns[r.Intn(len(ns))].name
		if r.Intn(3) == 0 {
			ls := q.labelList(2)
			c.Items = append(c.Items, SetItem{Kind: "labels", Var: n, Labels: ls})
			continue
		}
		c.Items = append(c.Items, SetItem{Kind: "prop", Target: Var{n}, Key: q.storeKey()})
	}
	return c
}

func (q *QGen) del() Delete {
	r := q.rng
	d := Delete{Detach: r.Intn(2) == 0}
	cand := append(append(q.vars("node"), q.vars("edge")...), q.vars("path")...)
	if ps := q.vars("path"); len(ps) > 0 && r.Intn(2) == 0 {
		cand = ps
	}
	for i := 1 + r.Intn(2); i > 0; i-- {
		d.Exprs = append(d.Exprs, Var{cand[r.Intn(len(cand))].name})
	}
	return d
}

// merge makes a MERGE clause
func (q *QGen) merge() Merge {
	r := q.rng
	var p Part
	bound := q.nonNull("node")
	type nv struct{ name, kind string }
	var local []nv
	node := func() NodePat {
		n := NodePat{}
		if len(bound) > 0 && q.pct(q.pBound) {
			n.Var = bound[r.Intn(len(bound))].name
			return n
		}
		if r.Intn(4) > 0 {
			n.Var = q.fresh()
			local = append(local, nv{n.Var, "node"})
		}
		n.Labels = q.labels(2)
		n.Props = q.patProps(bound, false)
		return n
	}
	k := 0
	if q.maxRels > 0 {
		k = r.Intn(q.maxRels + 1)
	}
	p.Nodes = append(p.Nodes, node())
	for i := 0; i < k; i++ {
		rp := RelPat{Dir: 1 + r.Intn(2), Types: []string{typePool[r.Intn(len(typePool))]}}
		if r.Intn(4) == 0 {
			rp.Props = q.patProps(bound, true)
		}
		if r.Intn(2) == 0 {
			rp.Var = q.fresh()
			local = append(local, nv{rp.Var, "edge"})
		}
		p.Rels = append(p.Rels, rp)
		p.Nodes = append(p.Nodes, node())
	}
	for _, v := range local {
		q.add(v.name, v.kind)
	}
	m := Merge{Part: p}
	if len(q.vars("node")) > 0 {
		for i := r.Intn(3); i > 0; i-- {
			a := MergeAction{OnCreate: r.Intn(2) == 0}
			for j := 1 + r.Intn(2); j > 0; j-- {
				a.Items = append(a.Items, q.setItem())
			}
			m.Actions = append(m.Actions, a)
		}
	}
	return m
}

// readProps returns properties of the variables
func (q *QGen) retState() *Return {
	ret := q.retAll()
	ns := append(q.nonNull("node"), q.nonNull("edge")...)
	for i := q.rng.Intn(3); i > 0 && len(ns) > 0; i-- {
		ret.Items = append(ret.Items, RetItem{E: Prop{Var{ns[q.rng.Intn(len(ns))].name}, q.storeKey()}})
	}
	return ret
}

// project makes a RETURN clause with expressions, DISTINCT, ORDER BY,
// SKIP and LIMIT
func (q *QGen) project() *Return {
	r := q.rng
	ret := &Return{}
	e := q.egen()
	e.envP = 0.8
	n, _ := many(r, 1+r.Intn(4))
	var sortable []Expr
	aliases := map[string]bool{}
	ret.Distinct = r.Intn(3) == 0
	// many columns, mostly the same in all rows
	broad := r.Intn(30) == 0
	if broad {
		ret.Distinct = r.Intn(8) > 0
		n = 4 + r.Intn(14)
	}
	if !ret.Distinct && r.Intn(12) == 0 && len(q.scope) > 0 {
		ret.Star = true
		n = r.Intn(2)
	}
	for i := 0; i < n; i++ {
		it := RetItem{}
		ty := []Ty{TInt, TInt, TStr, TBool, TFlt, TLInt, TMap, TLStr}[r.Intn(8)]
		k := r.Intn(5)
		if broad && r.Intn(5) > 0 {
			k = 5
		}
		switch k {
		case 5:
			it.E = []Expr{Lit{i}, Lit{"c"}, Lit{nil}, ListE{[]Expr{Lit{i}}}}[r.Intn(4)]
			ty = nTypes
		case 0:
			if len(q.scope) > 0 {
				it.E = Var{q.scope[r.Intn(len(q.scope))].name}
				ty = nTypes
				break
			}
			fallthrough
		case 1, 2:
			it.E = e.leaf(ty)
		default:
			it.E = e.gen(ty, 2)
		}
		switch r.Intn(5) {
		case 0, 1:
			it.Alias = q.aliasName()
		case 2:
			it.Alias = []string{"x", "name", "Total Count", "order", "日", "`", "a.b", "n"}[r.Intn(8)]
			if aliases[it.Alias] {
				it.Alias = q.aliasName()
			}
			for _, v := range q.scope {
				if v.name == it.Alias { // shadows a variable: leave to other checks
					it.Alias = q.aliasName()
				}
			}
		}
		if it.Alias != "" {
			aliases[it.Alias] = true
			if ty <= TBool {
				sortable = append(sortable, Var{it.Alias})
			}
		}
		ret.Items = append(ret.Items, it)
	}
	if ret.Star {
		for i := range ret.Items {
			ret.Items[i].Alias = q.aliasName()
		}
	}
	if !ret.Distinct {
		for i := 0; i < 2; i++ {
			sortable = append(sortable, e.leaf([]Ty{TInt, TStr, TInt}[r.Intn(3)]), e.gen(TInt, 1))
		}
	}
	if r.Intn(2) == 0 && len(sortable) > 0 {
		k := 1 + r.Intn(3)
		if r.Intn(15) == 0 {
			k += 3 + r.Intn(6)
		}
		for i := k; i > 0; i-- {
			ret.Order = append(ret.Order, SortItem{E: sortable[r.Intn(len(sortable))], Word: []string{"", "", "ASC", "ASCENDING", "DESC", "DESC", "DESCENDING"}[r.Intn(7)]})
		}
	}
	lim := func() Expr {
		n := r.Intn(8)
		if r.Intn(6) == 0 {
			n = 8 + r.Intn(60)
		}
		switch r.Intn(4) {
		case 0:
			return Param{q.param(n)}
		case 1:
			return Bin{"+", Lit{n}, Lit{r.Intn(2)}}
		}
		return Lit{n}
	}
	if r.Intn(4) == 0 {
		ret.Skip = lim()
	}
	if r.Intn(4) == 0 {
		ret.Limit = lim()
	}
	return ret
}
