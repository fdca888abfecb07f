package main

import "sort"

// match runs a MATCH clause for a row by brute force
func (x *Exec) match(m Match, row Row) ([]Row, error) {
	out, err := x.matchParts(m.Parts, m.Where, row)
	if err != nil {
		return nil, err
	}
	if m.Optional && len(out) == 0 {
		nr := cloneRow(row)
		env := x.child(row)
		for _, p := range m.Parts {
			for _, n := range p.vars() {
				if _, ok := env.lookup(n); !ok {
					nr[n] = nil
				}
			}
		}
		return []Row{nr}, nil
	}
	return out, nil
}

func (p Part) vars() []string {
	var out []string
	for i, n := range p.Nodes {
		if n.Var != "" {
			out = append(out, n.Var)
		}
		if i < len(p.Rels) && p.Rels[i].Var != "" {
			out = append(out, p.Rels[i].Var)
		}
	}
	return out
}

func (x *Exec) matchParts(parts []Part, where Expr, row Row) ([]Row, error) {
	var out []Row
	var rec func(i int, r Row) error
	rec = func(i int, r Row) error {
		if x.maxRows > 0 && len(out) > x.maxRows {
			return errUnspec
		}
		if i == len(parts) {
			if where != nil {
				v, err := x.child(r).Eval(where)
				if err != nil {
					return err
				}
				if v != true {
					return nil
				}
			}
			out = append(out, r)
			return nil
		}
		rows, err := x.matchPart(parts[i], r)
		if err != nil {
			return err
		}
		for _, nr := range rows {
			if err := rec(i+1, nr); err != nil {
				return err
			}
		}
		return nil
	}
	if err := rec(0, row); err != nil {
		return nil, err
	}
	return out, nil
}

// matchable decides if the pattern property p can be compared
func matchProps(have map[string]V, want map[string]V) (bool, error) {
	ok := true
	var err error
	for k, w := range want {
		h, exists := have[k]
		switch y := w.(type) {
		case string:
			if !exists {
				ok = false
				continue
			}
			s, isS := h.(string)
			if !isS {
				err = errUnspec
			} else if s != y {
				ok = false
			}
		case int:
			if !exists {
				ok = false
				continue
			}
			s, isI := h.(int)
			if !isI {
				err = errUnspec
			} else if s != y {
				ok = false
			}
		default:
			err = errUnspec
		}
	}
	return ok, err
}

func (x *Exec) matchPart(p Part, row Row) ([]Row, error) {
	env := x.child(row)
	n := len(p.Nodes)
	nprops := make([]map[string]V, n)
	eprops := make([]map[string]V, len(p.Rels))
	for i := range p.Nodes {
		m, err := x.propsOf(p.Nodes[i].Props, env)
		if err != nil {
			return nil, err
		}
		nprops[i] = m
	}
	for i := range p.Rels {
		m, err := x.propsOf(p.Rels[i].Props, env)
		if err != nil {
			return nil, err
		}
		eprops[i] = m
	}
	// property types must be comparable wherever they are compared
	for i := range nprops {
		for k := range nprops[i] {
			for _, id := range x.g.norder {
				if _, err := matchProps(x.g.nodes[id].props, map[string]V{k: nprops[i][k]}); err != nil {
					return nil, err
				}
			}
		}
	}
	for i := range eprops {
		for k := range eprops[i] {
			for _, id := range x.g.eorder {
				if _, err := matchProps(x.g.edges[id].props, map[string]V{k: eprops[i][k]}); err != nil {
					return nil, err
				}
			}
		}
	}
	if !x.countWalks(p) {
		return nil, errUnspec
	}
	var out []Row
	local := map[string]V{}
	get := func(name string) (V, bool) {
		if v, ok := local[name]; ok {
			return v, true
		}
		return env.lookup(name)
	}
	fail := error(nil)
	nodeOK := func(i, id int) bool {
		np := p.Nodes[i]
		nd := x.g.nodes[id]
		for _, l := range np.Labels {
			if !nd.labels[l] {
				return false
			}
		}
		ok, _ := matchProps(nd.props, nprops[i])
		if !ok {
			return false
		}
		if np.Var != "" {
			if v, bound := get(np.Var); bound {
				if v == nil {
					return false
				}
				ref, isN := v.(NodeRef)
				if !isN {
					fail = errEval
					return false
				}
				return int(ref) == id
			}
		}
		return true
	}
	steps := 0
	var visit func(i, id int)
	var segment func(i, at int, used []int)
	adj := map[int][]int{}
	for _, id := range x.g.eorder {
		e := x.g.edges[id]
		adj[e.from] = append(adj[e.from], id)
		if e.to != e.from {
			adj[e.to] = append(adj[e.to], id)
		}
	}
	visit = func(i, id int) {
		if !nodeOK(i, id) || fail != nil {
			return
		}
		np := p.Nodes[i]
		added := false
		if np.Var != "" {
			if _, bound := get(np.Var); !bound {
				local[np.Var] = NodeRef(id)
				added = true
			}
		}
		if i == n-1 {
			nr := cloneRow(row)
			for _, name := range p.vars() {
				v, _ := get(name)
				nr[name] = v
			}
			out = append(out, nr)
		} else {
			segment(i, id, nil)
		}
		if added {
			delete(local, np.Var)
		}
	}
	segment = func(i, at int, used []int) {
		steps++
		if fail != nil {
			return
		}
		if steps > 400000 || (x.maxRows > 0 && len(out) > x.maxRows) {
			fail = errUnspec
			return
		}
		rp := p.Rels[i]
		lo, hi := rp.Range.bounds()
		if lo < 1 {
			lo = 1
		}
		if len(used) >= lo {
			ok := true
			added := false
			ids := append([]int(nil), used...)
			if rp.Var != "" {
				if v, bound := get(rp.Var); bound {
					ep, isE := v.(EdgePath)
					ok = isE && sameIDs(ep.IDs, ids)
				} else {
					local[rp.Var] = EdgePath{ids}
					added = true
				}
			}
			if ok {
				visit(i+1, at)
			}
			if added {
				delete(local, rp.Var)
			}
		}
		if len(used) >= hi {
			return
		}
	edges:
		for _, eid := range adj[at] {
			for _, u := range used {
				if u == eid {
					continue edges
				}
			}
			e := x.g.edges[eid]
			if len(rp.Types) > 0 {
				has := false
				for _, t := range rp.Types {
					has = has || t == e.typ
				}
				if !has {
					continue
				}
			}
			if ok, _ := matchProps(e.props, eprops[i]); !ok {
				continue
			}
			next := append(append([]int(nil), used...), eid)
			out, in := e.from == at, e.to == at
			switch rp.Dir {
			case 1:
				if out {
					segment(i, e.to, next)
				}
			case 2:
				if in {
					segment(i, e.from, next)
				}
			default:
				if out {
					segment(i, e.to, next)
				}
				if in && !out {
					segment(i, e.from, next)
				}
			}
		}
	}
	for _, id := range x.g.norder {
		visit(0, id)
	}
	if fail != nil {
		return nil, fail
	}
	return out, nil
}

func sameIDs(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	x := append([]int(nil), a...)
	y := append([]int(nil), b...)
	sort.Ints(x)
	sort.Ints(y)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

const maxWalks = 150000

// countWalks bounds the work of a pattern with long variable-length
// segments for an implementation that looks at the nodes of the pattern
// late: it counts the walks of the pattern that nothing but direction
// and type restrict, over the whole query. False: too many
func (x *Exec) countWalks(p Part) bool {
	long := false
	for _, r := range p.Rels {
		if _, hi := r.Range.bounds(); hi > 2 {
			long = true
		}
	}
	if !long {
		return true
	}
	adj := map[int][]int{}
	for _, id := range x.g.eorder {
		e := x.g.edges[id]
		adj[e.from] = append(adj[e.from], id)
		if e.to != e.from {
			adj[e.to] = append(adj[e.to], id)
		}
	}
	used := map[int]bool{}
	var walk func(i, at, length int)
	walk = func(i, at, length int) {
		x.walks++
		if x.walks > maxWalks || i == len(p.Rels) {
			return
		}
		rp := p.Rels[i]
		lo, hi := rp.Range.bounds()
		if length >= lo && length >= 1 {
			saved := used
			used = map[int]bool{}
			walk(i+1, at, 0)
			used = saved
		}
		if length >= hi {
			return
		}
		for _, eid := range adj[at] {
			e := x.g.edges[eid]
			if used[eid] {
				continue
			}
			has := len(rp.Types) == 0
			for _, t := range rp.Types {
				has = has || t == e.typ
			}
			if !has {
				continue
			}
			out, in := e.from == at, e.to == at
			used[eid] = true
			if out && rp.Dir != 2 {
				walk(i, e.to, length+1)
			}
			if in && rp.Dir != 1 && (rp.Dir == 2 || !out) {
				walk(i, e.from, length+1)
			}
			delete(used, eid)
		}
	}
	for _, id := range x.g.norder {
		walk(0, id, 0)
	}
	return x.walks <= maxWalks
}
