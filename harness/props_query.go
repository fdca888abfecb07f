package main

import "math/rand"

func init() {
	register(&Check{ID: "C08", Quick: 17500, Thorough: 200000,
		Rule: "Random graphs (0-9 nodes, 0-14 relationships, parallel ones and loops, with and without property indexes) and random patterns of one MATCH (labels, types, type alternatives, directions, properties from literals, parameters and earlier variables, repeated variables, variable-length segments, several parts, WHERE), with the bag of rows compared to a brute-force matcher. Counted: distinct (query, graph) pairs with at least one row.",
		Run: func(t *T) {
			r := t.rng
			gg := GraphGen{rng: r, nMin: r.Intn(2) * 3, nMax: 8, eMax: 14, loops: r.Intn(3) > 0, index: 30, large: 40}
			q := NewQGen(r, gg.gen())
			q.pWhere = 25
			if r.Intn(2) == 0 {
				q.pLabel, q.pProp, q.pType = 20, 12, 30
			}
			switch r.Intn(5) {
			case 0:
				q.maxRels, q.maxParts = 3, 1
			case 1:
				q.pVarLen = 60
				q.maxParts = 1
			case 2:
				q.pVarLen = 40
				q.anyVarLen = true
				q.pLabel, q.pProp = 10, 10
			case 3:
				q.maxParts = 3
				q.maxRels = 1
			default:
				if r.Intn(3) == 0 {
					q.pProp, q.pElem, q.pLabel, q.pType = 50, 60, 10, 20
					q.maxParts = 1
				}
			}
			m := q.match(false)
			ret := q.retAll()
			checkQuery(t, q.queryCase(Single{Read: []Match{m}, Ret: ret}), "MATCH queries")
		}})
	register(&Check{ID: "C09", Quick: 10000, Thorough: 150000,
		Rule: "Random queries of 2-4 MATCH and OPTIONAL MATCH clauses that share variables, over random graphs, with the bag of rows compared to a reference that feeds every row into the next clause. Counted: distinct (query, graph) pairs with at least one row.",
		Run: func(t *T) {
			r := t.rng
			gg := GraphGen{rng: r, nMin: r.Intn(3), nMax: 6, eMax: 8, loops: r.Intn(3) > 0, index: 15, large: 60}
			q := NewQGen(r, gg.gen())
			q.maxParts = 1 + r.Intn(3)
			q.pBound = 55
			if r.Intn(4) > 0 {
				q.pLabel, q.pProp, q.pType, q.pWhere = 15, 7, 25, 20
			}
			if r.Intn(4) == 0 {
				q.pVarLen = 30
				q.maxRels = 1
			}
			var ms []Match
			k := 2 + r.Intn(3)
			if r.Intn(50) == 0 {
				k = 5 + r.Intn(5)
			}
			for i := k; i > 0; i-- {
				ms = append(ms, q.match(r.Intn(2) == 0))
			}
			ret := q.retAll()
			for i := r.Intn(3); i > 0; i-- {
				ret.Items = append(ret.Items, RetItem{E: q.egen().gen([]Ty{TInt, TBool, TStr}[r.Intn(3)], 1)})
			}
			checkQuery(t, q.queryCase(Single{Read: ms, Ret: ret}), "queries with several MATCH clauses")
		}})
	register(&Check{ID: "C10", Quick: 12500, Thorough: 150000,
		Rule: "Random RETURN clauses (expressions, aliases, *, DISTINCT, ORDER BY with one to three keys, SKIP, LIMIT) over the rows of a random MATCH, with columns, values, and order compared to a reference; ties may be in any order. Counted: distinct (query, graph) pairs with at least one row.",
		Run: func(t *T) {
			r := t.rng
			gg := GraphGen{rng: r, nMin: 0, nMax: 9, eMax: 6, loops: true, wide: true, large: 25}
			q := NewQGen(r, gg.gen())
			q.wide = true
			q.pProp, q.pWhere = 10, 15
			if r.Intn(2) == 0 {
				q.maxRels, q.maxParts = 0, 1
				q.pLabel = 15
			}
			var ms []Match
			if r.Intn(12) > 0 {
				ms = append(ms, q.match(r.Intn(8) == 0))
			}
			if r.Intn(3) == 0 {
				// variables that are null in some rows
				q.pProp, q.pBound, q.maxRels, q.pType = 30, 60, 1, 70
				ms = append(ms, q.match(true))
			}
			checkQuery(t, q.queryCase(Single{Read: ms, Ret: q.project()}), "RETURN clauses")
		}})
	register(&Check{ID: "C11", Quick: 10500, Thorough: 100000,
		Rule: "Random unions of 2-4 queries with the same columns, UNION and UNION ALL, over random graphs with few distinct values (so that rows repeat within and across the queries), compared as bags to a reference. Counted: distinct (query, graph) pairs with at least one row.",
		Run:  c11})
	register(&Check{ID: "C12", Quick: 8000, Thorough: 100000,
		Rule: "Random CREATE clauses (after MATCH clauses with 0 to many rows, or alone; new and bound nodes, several parts and clauses, paths, properties of every type from literals, parameters, maps and matched rows, nulls), with the whole graph, its indexes and adjacency lists, and the returned rows compared to a model. Counted: distinct (query, graph) pairs that created something.",
		Run: func(t *T) {
			q := updateGen(t)
			var s Single
			if q.rng.Intn(3) > 0 {
				s.Read = append(s.Read, q.match(q.rng.Intn(5) == 0))
			}
			for i := 1 + q.rng.Intn(2); i > 0; i-- {
				s.Upd = append(s.Upd, q.create(3))
			}
			if q.rng.Intn(6) == 0 {
				q.spoilCreate(s.Upd[len(s.Upd)-1].(Create))
			}
			if q.rng.Intn(3) > 0 {
				s.Ret = q.retState()
			}
			checkQuery(t, q.queryCase(s), "CREATE queries")
		}})
	register(&Check{ID: "C13", Quick: 12000, Thorough: 100000,
		Rule: "Random SET and REMOVE clauses (single properties, = and += with maps, parameters and nodes, labels, nulls, several items and clauses, items that read what earlier ones wrote) on the rows of random MATCH and OPTIONAL MATCH clauses, with the whole graph and its indexes compared to a model. Cases whose result depends on the order of the rows are discarded. Counted: distinct (query, graph) pairs that updated something.",
		Run: func(t *T) {
			q := updateGen(t)
			var s Single
			s.Read = append(s.Read, q.match(false))
			for i := 0; len(q.vars("node")) == 0 && i < 5; i++ {
				s.Read = append(s.Read, q.match(false))
			}
			if len(q.vars("node")) == 0 {
				t.Skip()
				return
			}
			if q.rng.Intn(4) == 0 {
				s.Read = append(s.Read, q.match(true))
			}
			for i := 1 + q.rng.Intn(2); i > 0; i-- {
				if q.rng.Intn(3) == 0 {
					s.Upd = append(s.Upd, q.remove())
				} else {
					s.Upd = append(s.Upd, q.set())
				}
			}
			if q.rng.Intn(3) > 0 {
				s.Ret = q.retState()
			}
			checkQuery(t, q.queryCase(s), "SET and REMOVE queries")
		}})
	register(&Check{ID: "C14", Quick: 12000, Thorough: 100000,
		Rule: "Random DELETE and DETACH DELETE clauses of nodes and relationships on the rows of random MATCH and OPTIONAL MATCH clauses (the same element in several rows or expressions, attached and free nodes, loops and parallel relationships, nulls), with the whole graph, its label and property indexes, and adjacency lists compared to a model; a failing DELETE must leave the graph as it was. Counted: distinct (query, graph) pairs that deleted something.",
		Run: func(t *T) {
			q := updateGen(t)
			if q.rng.Intn(3) == 0 {
				q.pVarLen, q.anyVarLen = 50, q.rng.Intn(2) == 0
				if q.maxRels == 0 {
					q.maxRels = 1
				}
			}
			var s Single
			for i := 0; len(q.vars("node"))+len(q.vars("edge")) == 0 && i < 5; i++ {
				s.Read = append(s.Read, q.match(i > 0 && q.rng.Intn(4) == 0))
			}
			if len(q.vars("node"))+len(q.vars("edge")) == 0 {
				t.Skip()
				return
			}
			if q.rng.Intn(5) == 0 {
				s.Read = append(s.Read, q.match(true))
			}
			s.Upd = append(s.Upd, q.del())
			if q.rng.Intn(3) == 0 {
				s.Ret = &Return{Items: []RetItem{{E: Lit{1}}}}
			}
			c := q.queryCase(s)
			v := checkQuery(t, c, "DELETE queries")
			if !v.Skipped && v.Bad == "" && v.Exp.err != nil && v.Obs.Err != nil {
				// nothing may have been deleted
				t.Event("failed DELETE queries")
				before := c.g.clone()
				before.markOld()
				if d := before.snapshot().diff(v.Real.snapshot()); d != "" {
					t.Violate("a failed DELETE changed the graph: %s\n%s", d, c.describe(v.Text))
				} else if d := v.Real.consistency(before); d != "" {
					t.Violate("a failed DELETE damaged the graph: %s\n%s", d, c.describe(v.Text))
				}
			}
		}})
	register(&Check{ID: "C15", Quick: 13500, Thorough: 120000,
		Rule: "Random MERGE clauses (nodes and paths, bound and new ends, labels, properties, ON CREATE and ON MATCH actions, after MATCH clauses with several rows, several MERGE clauses), with the graph, the returned rows, and whether it matched or created compared to a model; in addition, merging twice leaves the graph as merging once. Counted: distinct (query, graph) pairs that merged or created something.",
		Run:  c15})
}

func updateGen(t *T) *QGen {
	r := t.rng
	gg := GraphGen{rng: r, nMin: 0, nMax: 6, eMax: 7, loops: true, wide: r.Intn(2) == 0, index: 35, large: 40}
	if r.Intn(4) > 0 {
		gg.nMin = 2
	}
	q := NewQGen(r, gg.gen())
	q.wide = gg.wide
	q.maxRels = r.Intn(3)
	q.maxParts = 1 + r.Intn(2)
	q.pWhere = 20
	q.pUndirected = 15
	if r.Intn(3) > 0 {
		// so that there are rows
		q.pLabel, q.pProp, q.pType, q.pWhere = 15, 10, 25, 15
	}
	return q
}

func (q *QGen) queryCase(ss ...Single) *QCase {
	return &QCase{g: q.g, q: Query{Singles: ss, Semi: q.rng.Intn(10) == 0}, params: q.params}
}

func c11(t *T) {
	r := t.rng
	gg := GraphGen{rng: r, nMin: 0, nMax: 5, eMax: 5, loops: true, large: 25}
	g := gg.gen()
	n := 2 + r.Intn(3)
	if r.Intn(40) == 0 {
		n = 5 + r.Intn(8)
	}
	cols := 1 + r.Intn(2)
	alias := r.Intn(3) > 0
	// many columns, mostly the same in all rows
	broad := r.Intn(12) == 0
	if broad {
		cols = 4 + r.Intn(14)
	}
	var qq Query
	params := map[string]V{}
	kind := make([]int, cols)
	for i := range kind {
		kind[i] = r.Intn(7)
		if broad && r.Intn(8) > 0 {
			kind[i] = 7
		}
	}
	wide := r.Intn(4) == 0
	for i := 0; i < n; i++ {
		q := NewQGen(rand.New(rand.NewSource(r.Int63())), g)
		q.params = params
		q.maxParts, q.maxRels = 1, 1
		q.pProp, q.pWhere = 15, 20
		var s Single
		if r.Intn(6) > 0 {
			s.Read = []Match{q.match(false)}
			if wide {
				s.Read = append(s.Read, Match{Parts: []Part{{Nodes: []NodePat{{}}}}})
			}
			if r.Intn(5) == 0 {
				s.Read = append(s.Read, q.match(true))
			}
		}
		ret := &Return{Distinct: r.Intn(4) == 0}
		for j := 0; j < cols; j++ {
			it := RetItem{}
			e := q.egen()
			e.envP = 0.9
			switch kind[j] {
			case 0:
				it.E = e.leaf(TInt)
			case 1:
				it.E = Lit{r.Intn(2)}
				if r.Intn(3) == 0 {
					it.E = Lit{nil}
				}
			case 2:
				it.E = e.leaf(TStr)
			case 4:
				// lists and maps, some of them parts of others
				it.E = []Expr{
					ListE{}, ListE{[]Expr{Lit{1}}}, ListE{[]Expr{Lit{1}, Lit{2}}}, ListE{[]Expr{Lit{1}, Lit{nil}}}, ListE{[]Expr{Lit{1}, Lit{2}, Lit{3}}},
					ListE{[]Expr{Lit{2}, Lit{1}}}, ListE{[]Expr{Lit{"1"}, Lit{"2"}}}, ListE{[]Expr{ListE{[]Expr{Lit{1}}}, Lit{2}}}, ListE{[]Expr{ListE{[]Expr{Lit{1}, Lit{2}}}}},
					Lit{nil}, Func{"range", []Expr{Lit{1}, Lit{1 + r.Intn(4)}}},
				}[r.Intn(11)]
			case 5:
				one, two := Lit{1}, Lit{2}
				it.E = []Expr{
					MapE{}, MapE{Keys: []string{"a"}, Vals: []Expr{one}}, MapE{Keys: []string{"a"}, Vals: []Expr{two}}, MapE{Keys: []string{"b"}, Vals: []Expr{one}},
					MapE{Keys: []string{"a", "b"}, Vals: []Expr{one, two}}, MapE{Keys: []string{"b", "a"}, Vals: []Expr{two, one}}, MapE{Keys: []string{"a", "b"}, Vals: []Expr{two, one}},
					MapE{Keys: []string{"a", "b"}, Vals: []Expr{one, Lit{nil}}}, MapE{Keys: []string{"a"}, Vals: []Expr{ListE{[]Expr{one}}}}, MapE{Keys: []string{"a"}, Vals: []Expr{ListE{[]Expr{one, two}}}},
				}[r.Intn(10)]
			case 6:
				it.E = e.gen([]Ty{TInt, TStr, TBool, TLInt}[r.Intn(4)], 2)
			case 7:
				it.E = Lit{j}
				switch r.Intn(5 * cols) {
				case 0:
					it.E = Lit{nil}
				case 1:
					it.E = Lit{-1}
				}
			default:
				ns := q.vars("node")
				if len(ns) > 0 {
					it.E = Var{ns[r.Intn(len(ns))].name}
				} else {
					it.E = ListE{[]Expr{e.leaf(TInt)}}
				}
			}
			if alias {
				it.Alias = string(rune('a' + j))
			}
			ret.Items = append(ret.Items, it)
		}
		if r.Intn(8) == 0 {
			ret.Limit = Lit{r.Intn(20)}
		}
		s.Ret = ret
		qq.Singles = append(qq.Singles, s)
		if i > 0 {
			qq.All = append(qq.All, r.Intn(2) == 0)
		}
	}
	if r.Intn(4) > 0 {
		for i := range qq.All {
			qq.All[i] = qq.All[0]
		}
	}
	checkQuery(t, &QCase{g: g, q: qq, params: params}, "UNION queries")
}

func c15(t *T) {
	q := updateGen(t)
	var s Single
	if q.rng.Intn(2) == 0 {
		s.Read = append(s.Read, q.match(q.rng.Intn(6) == 0))
	}
	for i := 1 + q.rng.Intn(2); i > 0; i-- {
		s.Upd = append(s.Upd, q.merge())
	}
	if q.rng.Intn(4) > 0 {
		s.Ret = q.retState()
	}
	c := q.queryCase(s)
	v := checkQuery(t, c, "MERGE queries")
	if v.Skipped || v.Bad != "" || v.Exp.err != nil || len(s.Upd) != 1 || len(s.Read) > 0 {
		return
	}
	m := s.Upd[0].(Merge)
	if len(m.Actions) > 0 {
		return
	}
	// idempotent
	nodes, edges := v.Real.g.NumNodes(), v.Real.g.NumEdges()
	ctx, _ := newCtx(v.Real, c.params)
	o := runText(v.Text, ctx)
	t.Eval(1)
	t.Event("repeated merges")
	if o.Panic != "" || o.Err != nil {
		t.Violate("the second MERGE: %s\n%s", o, c.describe(v.Text))
		return
	}
	if v.Real.g.NumNodes() != nodes || v.Real.g.NumEdges() != edges {
		t.Violate("the second MERGE created something: %d -> %d nodes, %d -> %d relationships\n%s", nodes, v.Real.g.NumNodes(), edges, v.Real.g.NumEdges(), c.describe(v.Text))
	}
}
