package main

import (
	"math/rand"
	"sort"
	"strconv"
	"strings"
)

// NodePat is a node pattern
type NodePat struct {
	Var    string
	Labels []string
	Props  *PropsPat
}

// PropsPat is a map literal, or a parameter
type PropsPat struct {
	Map   *MapE
	Param string
}

// RelPat is a relationship pattern
type RelPat struct {
	Var   string
	Types []string
	Dir   int // 0: -- , 1: -->, 2: <--, 3: <-->
	Range *RangeLit
	Props *PropsPat
	Bare  bool // no brackets, if there is nothing in them
	Colon bool // write |: instead of |
}

// RangeLit is *, *n, *n.., *..m, *n..m
type RangeLit struct {
	From, To int // -1: not given
	Dots     bool
}

func (r *RangeLit) bounds() (int, int) {
	if r == nil {
		return 1, 1
	}
	lo, hi := 1, 1<<30
	if r.From >= 0 {
		lo = r.From
		if !r.Dots {
			hi = r.From
		}
	}
	if r.To >= 0 {
		hi = r.To
	}
	return lo, hi
}

// Part is a path pattern
type Part struct {
	PathVar string // CREATE only
	Nodes   []NodePat
	Rels    []RelPat
	Parens  int
}

type (
	Clause interface{}
	Match  struct {
		Optional bool
		Parts    []Part
		Where    Expr
	}
	Create struct{ Parts []Part }
	Merge  struct {
		Part    Part
		Actions []MergeAction
	}
	MergeAction struct {
		OnCreate bool
		Items    []SetItem
	}
	SetC    struct{ Items []SetItem }
	SetItem struct {
		Kind   string // prop, =, +=, labels
		Target Expr   // prop: the expression that has the property
		Key    string
		Var    string
		E      Expr
		Labels []string
	}
	RemoveC struct{ Items []SetItem } // Kind: prop, labels
	Delete  struct {
		Detach bool
		Exprs  []Expr
	}
	Return struct {
		Distinct    bool
		Star        bool
		Items       []RetItem
		Order       []SortItem
		Skip, Limit Expr
	}
	RetItem struct {
		E     Expr
		Alias string
	}
	SortItem struct {
		E    Expr
		Word string // "", ASC, ASCENDING, DESC, DESCENDING
	}
	Single struct {
		Read []Match
		Upd  []Clause
		Ret  *Return
	}
	Query struct {
		Singles []Single
		All     []bool // All[i]: UNION ALL between i and i+1
		Semi    bool
	}
)

// ---- printing

func (p *Printer) props(x *PropsPat) {
	if x.Map != nil {
		p.mapLit(*x.Map)
		return
	}
	p.w("$" + name(x.Param))
}

func (p *Printer) nodePat(n NodePat) {
	p.w("(")
	p.opt()
	if n.Var != "" {
		p.w(name(n.Var))
		p.opt()
	}
	if len(n.Labels) > 0 {
		p.labels(n.Labels)
		p.opt()
	}
	if n.Props != nil {
		p.props(n.Props)
		p.opt()
	}
	p.w(")")
}

func (p *Printer) relPat(r RelPat) {
	if r.Dir >= 2 {
		p.arrow("<")
		p.opt()
	}
	p.arrow("-")
	p.opt()
	empty := r.Var == "" && len(r.Types) == 0 && r.Range == nil && r.Props == nil
	if !(empty && r.Bare) {
		p.w("[")
		p.opt()
		if r.Var != "" {
			p.w(name(r.Var))
			p.opt()
		}
		if len(r.Types) > 0 {
			p.w(":")
			p.opt()
			for i, t := range r.Types {
				if i > 0 {
					p.opt()
					p.w("|")
					if r.Colon {
						p.w(":")
					}
					p.opt()
				}
				p.w(name(t))
			}
			p.opt()
		}
		if r.Range != nil {
			p.w("*")
			p.opt()
			if r.Range.From >= 0 {
				p.w(strconv.Itoa(r.Range.From))
				if !r.Range.Dots {
					p.opt()
				} else {
					// 1..2 does not need whitespace, and the grammar allows it
					p.opt()
				}
			}
			if r.Range.Dots {
				p.w("..")
				p.opt()
				if r.Range.To >= 0 {
					p.w(strconv.Itoa(r.Range.To))
					p.opt()
				}
			}
		}
		if r.Props != nil {
			p.props(r.Props)
			p.opt()
		}
		p.w("]")
		p.opt()
	}
	p.arrow("-")
	if r.Dir == 1 || r.Dir == 3 {
		p.opt()
		p.arrow(">")
	}
}

func (p *Printer) part(x Part) {
	if x.PathVar != "" {
		p.w(name(x.PathVar))
		p.opt()
		p.w("=")
		p.opt()
	}
	for i := 0; i < x.Parens; i++ {
		p.w("(")
	}
	for i, n := range x.Nodes {
		if i > 0 {
			p.opt()
			p.relPat(x.Rels[i-1])
			p.opt()
		}
		p.nodePat(n)
	}
	for i := 0; i < x.Parens; i++ {
		p.gap = gNone
		p.w(")")
	}
}

func (p *Printer) parts(ps []Part) {
	for i, x := range ps {
		if i > 0 {
			p.opt()
			p.w(",")
			p.opt()
		}
		p.part(x)
	}
}

func (p *Printer) setItems(items []SetItem) {
	for i, it := range items {
		if i > 0 {
			p.opt()
			p.w(",")
			p.opt()
		}
		switch it.Kind {
		case "prop":
			p.expr(it.Target, lvProp)
			p.w(".")
			p.w(name(it.Key))
			if it.E != nil {
				p.opt()
				p.w("=")
				p.opt()
				p.expr(it.E, lvOr)
			}
		case "labels":
			p.w(name(it.Var))
			if it.E != nil { // SET allows whitespace here, REMOVE does not
				p.opt()
			}
			p.labels(it.Labels)
		default:
			p.w(name(it.Var))
			p.opt()
			p.w(it.Kind)
			p.opt()
			p.expr(it.E, lvOr)
		}
	}
}

func (p *Printer) clause(c Clause) {
	switch t := c.(type) {
	case Match:
		if t.Optional {
			p.kw("OPTIONAL")
			p.req()
		}
		p.kw("MATCH")
		p.opt()
		p.parts(t.Parts)
		if t.Where != nil {
			p.opt()
			p.kw("WHERE")
			p.req()
			p.expr(t.Where, lvOr)
		}
	case Create:
		p.kw("CREATE")
		p.opt()
		p.parts(t.Parts)
	case Merge:
		p.kw("MERGE")
		p.opt()
		p.part(t.Part)
		for _, a := range t.Actions {
			p.req()
			if a.OnCreate {
				p.kws("ON CREATE")
			} else {
				p.kws("ON MATCH")
			}
			p.req()
			p.kw("SET")
			p.opt()
			p.setItems(a.Items)
		}
	case SetC:
		p.kw("SET")
		p.opt()
		p.setItems(t.Items)
	case RemoveC:
		p.kw("REMOVE")
		p.req()
		p.setItems(t.Items)
	case Delete:
		if t.Detach {
			p.kw("DETACH")
			p.req()
		}
		p.kw("DELETE")
		p.opt()
		for i, e := range t.Exprs {
			if i > 0 {
				p.opt()
				p.w(",")
				p.opt()
			}
			p.expr(e, lvOr)
		}
	case Return:
		p.kw("RETURN")
		if t.Distinct {
			p.req()
			p.kw("DISTINCT")
		}
		p.req()
		first := true
		comma := func() {
			if !first {
				p.opt()
				p.w(",")
				p.opt()
			}
			first = false
		}
		if t.Star {
			comma()
			p.w("*")
		}
		for _, it := range t.Items {
			comma()
			p.expr(it.E, lvOr)
			if it.Alias != "" {
				p.req()
				p.kw("AS")
				p.req()
				p.w(name(it.Alias))
			}
		}
		if len(t.Order) > 0 {
			p.req()
			p.kws("ORDER BY")
			p.req()
			for i, o := range t.Order {
				if i > 0 {
					p.w(",")
					p.opt()
				}
				p.expr(o.E, lvOr)
				if o.Word != "" {
					p.req()
					p.kw(o.Word)
				}
			}
		}
		if t.Skip != nil {
			p.req()
			p.kw("SKIP")
			p.req()
			p.expr(t.Skip, lvOr)
		}
		if t.Limit != nil {
			p.req()
			p.kw("LIMIT")
			p.req()
			p.expr(t.Limit, lvOr)
		}
	default:
		panic("harness: clause")
	}
}

func (p *Printer) single(s Single) {
	first := true
	sep := func() {
		if !first {
			p.req()
		}
		first = false
	}
	for _, m := range s.Read {
		sep()
		p.clause(m)
	}
	for _, u := range s.Upd {
		sep()
		p.clause(u)
	}
	if s.Ret != nil {
		sep()
		p.clause(*s.Ret)
	}
}

func (p *Printer) query(q Query) {
	for i, s := range q.Singles {
		if i > 0 {
			p.req()
			p.kw("UNION")
			if q.All[i-1] {
				p.req()
				p.kw("ALL")
			}
			p.req()
		}
		p.single(s)
	}
	if q.Semi {
		p.opt()
		p.w(";")
	}
}

// text renders the query. lit: spelling variants; style: whitespace
func (q Query) text(lit, style *rand.Rand) string {
	p := &Printer{rng: lit}
	p.query(q)
	t := Style{style}.text(p.toks)
	if style != nil {
		s := Style{style}
		if style.Intn(3) == 0 {
			t = s.space() + t
		}
		if style.Intn(3) == 0 {
			t += s.space()
		}
	}
	return t
}

// ---- reference semantics

type Row map[string]V

// orders shuffles the rows between the clauses
type orders struct{ rng *rand.Rand } // nil: keep the order

func (o orders) rows(rs []Row) []Row {
	if o.rng == nil || len(rs) < 2 {
		return rs
	}
	out := append([]Row(nil), rs...)
	o.rng.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

// Exec is a run of the reference interpreter
type Exec struct {
	g   *MGraph
	env *Env // parameters, and the variables of the context
	ord orders
	// observations
	nDeleted, nCreated, nSet, nMerged, nMatched int
	rows                                        int
	undirected                                  bool
	walks                                       int // see walks in match.go
	maxRows                                     int
	filter                                      func(string, V) V
	filterCalls                                 []string
}

// stored returns the value to store for a property
func (x *Exec) stored(k string, v V) V {
	if x.filter == nil || v == nil {
		return v
	}
	x.filterCalls = append(x.filterCalls, filterCall(k, canon(v, nil)))
	return x.filter(k, v)
}

func (x *Exec) child(r Row) *Env {
	return &Env{vars: map[string]V(r), parent: x.env, g: x.g}
}

func cloneRow(r Row) Row {
	n := Row{}
	for k, v := range r {
		n[k] = v
	}
	return n
}

// Result is the expected result of a query
type Result struct {
	Cols    []string
	Rows    []Row
	Keys    [][]V // sort keys of the rows
	Ordered bool
	Ret     *Return
	// Skip and Limit are applied already if the result is determined.
	// Otherwise, the result is some of the rows: from the skipped
	// row on
	Skip, Limit int
}

func (x *Exec) single(s Single) (*Result, error) {
	rows := []Row{{}}
	res := &Result{Skip: 0, Limit: -1, Ret: s.Ret}
	if s.Ret != nil {
		for _, b := range []struct {
			e Expr
			p *int
		}{{s.Ret.Skip, &res.Skip}, {s.Ret.Limit, &res.Limit}} {
			if b.e == nil {
				continue
			}
			v, err := x.env.Eval(b.e)
			if err != nil {
				return nil, err
			}
			n, ok := v.(int)
			if !ok {
				return nil, errEval
			}
			if n < 0 {
				return nil, errUnspec
			}
			*b.p = n
		}
	}
	for _, m := range s.Read {
		var out []Row
		for _, r := range rows {
			rs, err := x.match(m, r)
			if err != nil {
				return nil, err
			}
			out = append(out, rs...)
			if x.maxRows > 0 && len(out) > x.maxRows {
				return nil, errUnspec
			}
		}
		rows = x.ord.rows(out)
		x.nMatched += len(rows)
	}
	for _, u := range s.Upd {
		var err error
		rows, err = x.update(u, rows)
		if err != nil {
			return nil, err
		}
		rows = x.ord.rows(rows)
	}
	x.rows += len(rows)
	if s.Ret == nil {
		return res, nil
	}
	return res, x.project(s.Ret, rows, res)
}

func colName(it RetItem, i int) string {
	if it.Alias != "" {
		return it.Alias
	}
	return strconv.Itoa(i + 1)
}

func (x *Exec) project(ret *Return, rows []Row, res *Result) error {
	if !ret.Star {
		for i, it := range ret.Items {
			res.Cols = append(res.Cols, colName(it, i))
		}
	}
	res.Ordered = len(ret.Order) > 0
	seen := map[string]string{}
	var errOut error
	for _, r := range rows {
		env := x.child(r)
		out := Row{}
		if ret.Star {
			for k, v := range r {
				out[k] = v
			}
		}
		bad := false
		for i, it := range ret.Items {
			v, err := env.Eval(it.E)
			if err != nil {
				errOut = worse(errOut, err)
				bad = true
				continue
			}
			out[colName(it, i)] = v
		}
		if bad {
			continue
		}
		if ret.Distinct {
			if x.undirected && hasPath(out) {
				return errUnspec // the same relationship in both directions
			}
			k := rowKey(out, eqKey)
			c := rowKey(out, func(v V) string { return canon(v, nil) })
			if prev, ok := seen[k]; ok {
				if prev != c {
					return errUnspec // 1 and 1.0: which one is kept is not specified
				}
				continue
			}
			seen[k] = c
		}
		var keys []V
		for _, o := range ret.Order {
			sub := &Env{vars: map[string]V(out), parent: env, g: x.g}
			v, err := sub.Eval(o.E)
			if err != nil {
				errOut = worse(errOut, err)
				bad = true
				break
			}
			keys = append(keys, v)
		}
		if bad {
			continue
		}
		res.Rows = append(res.Rows, out)
		res.Keys = append(res.Keys, keys)
	}
	if errOut != nil {
		if res.Skip > 0 || res.Limit >= 0 {
			return errUnspec
		}
		return errOut
	}
	if res.Ordered {
		idx := make([]int, len(res.Rows))
		for i := range idx {
			idx[i] = i
		}
		var err error
		sort.SliceStable(idx, func(a, b int) bool {
			c, e := compareKeys(res.Keys[idx[a]], res.Keys[idx[b]], ret.Order)
			if e != nil {
				err = e
			}
			return c < 0
		})
		if err != nil {
			if len(ret.Order) == 1 && err == errEval && allPrimitive(res.Keys) {
				// whatever the algorithm, it must compare two neighbours of different kinds
				return errEval
			}
			return errUnspec
		}
		rs := make([]Row, len(idx))
		ks := make([][]V, len(idx))
		for i, j := range idx {
			rs[i], ks[i] = res.Rows[j], res.Keys[j]
		}
		res.Rows, res.Keys = rs, ks
	}
	return nil
}

func allPrimitive(keys [][]V) bool {
	for _, k := range keys {
		for _, v := range k {
			switch v.(type) {
			case nil, bool, int, float64, string, RDate, RLT, RLDT, RDur:
			default:
				return false
			}
		}
	}
	return true
}

// compareKeys: null comes last in ascending order
func compareKeys(a, b []V, order []SortItem) (int, error) {
	for i, o := range order {
		c := 0
		switch {
		case a[i] == nil && b[i] == nil:
		case a[i] == nil:
			c = 1
		case b[i] == nil:
			c = -1
		default:
			var err error
			c, err = compare(a[i], b[i])
			if err != nil {
				return 0, err
			}
		}
		if strings.HasPrefix(o.Word, "DESC") {
			c = -c
		}
		if c != 0 {
			return c, nil
		}
	}
	return 0, nil
}

func hasPath(r Row) bool {
	for _, v := range r {
		if _, ok := v.(EdgePath); ok {
			return true
		}
	}
	return false
}

func (q Query) isUndirected() bool {
	for _, s := range q.Singles {
		for _, m := range s.Read {
			for _, p := range m.Parts {
				for _, r := range p.Rels {
					if r.Dir == 0 || r.Dir == 3 {
						return true
					}
				}
			}
		}
	}
	return false
}

func rowKey(r Row, f func(V) string) string {
	ks := make([]string, 0, len(r))
	for k := range r {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		b.WriteString(strconv.Quote(k) + "=" + f(r[k]) + ";")
	}
	return b.String()
}

// eqKey is the same for two values that are the same
func eqKey(v V) string {
	switch t := v.(type) {
	case int:
		if t > -maxSafe && t < maxSafe {
			return "n" + strconv.FormatFloat(float64(t), 'g', -1, 64)
		}
		return "n" + strconv.Itoa(t)
	case float64:
		if t == 0 {
			t = 0
		}
		return "n" + strconv.FormatFloat(t+0, 'g', -1, 64)
	case List:
		out := "["
		for _, x := range t {
			out += eqKey(x) + ","
		}
		return out + "]"
	case Map:
		return "{" + rowKey(Row(t), eqKey) + "}"
	}
	return canon(v, nil)
}

// query runs a whole query. If it is undecided what the result is, it
// returns errUnspec
func (x *Exec) query(q Query) (*Result, error) {
	x.undirected = q.isUndirected()
	var total *Result
	seen := map[string]string{}
	dedup := func(rs []Row) ([]Row, error) {
		var out []Row
		for _, r := range rs {
			if x.undirected && hasPath(r) {
				return nil, errUnspec
			}
			k := rowKey(r, eqKey)
			c := rowKey(r, func(v V) string { return canon(v, nil) })
			if p, ok := seen[k]; ok {
				if p != c {
					return nil, errUnspec
				}
				continue
			}
			seen[k] = c
			out = append(out, r)
		}
		return out, nil
	}
	for i, s := range q.Singles {
		r, err := x.single(s)
		if err != nil {
			return nil, err
		}
		if len(q.Singles) == 1 {
			return r, nil
		}
		if !r.cut() {
			return nil, errUnspec
		}
		if i == 0 {
			total = &Result{Cols: r.Cols, Rows: r.Rows, Limit: -1}
			continue
		}
		if !q.All[i-1] {
			seen = map[string]string{}
			a, err := dedup(total.Rows)
			if err != nil {
				return nil, err
			}
			b, err := dedup(r.Rows)
			if err != nil {
				return nil, err
			}
			total.Rows = append(a, b...)
		} else {
			total.Rows = append(append([]Row(nil), total.Rows...), r.Rows...)
		}
	}
	return total, nil
}

// cut applies SKIP and LIMIT if the rows that remain are determined
func (r *Result) cut() bool {
	if r.Skip == 0 && (r.Limit < 0 || r.Limit >= len(r.Rows)) {
		return true
	}
	from, to := r.window()
	if from == to {
		r.Rows, r.Keys, r.Skip, r.Limit = nil, nil, 0, -1
		return true
	}
	if from == 0 && to == len(r.Rows) {
		r.Skip, r.Limit = 0, -1
		return true
	}
	same := func(i, j int) bool {
		return rowKey(r.Rows[i], func(v V) string { return canon(v, nil) }) == rowKey(r.Rows[j], func(v V) string { return canon(v, nil) })
	}
	tie := func(i int) bool { // the rows i-1 and i can be swapped
		if i <= 0 || i >= len(r.Rows) {
			return false
		}
		if same(i-1, i) {
			return false
		}
		if !r.Ordered {
			return true
		}
		c, _ := compareKeys(r.Keys[i-1], r.Keys[i], r.Ret.Order)
		return c == 0
	}
	if tie(from) || tie(to) {
		return false
	}
	// identical rows at the border: everything tied must be identical
	for _, b := range []int{from, to} {
		if b <= 0 || b >= len(r.Rows) {
			continue
		}
		for i := range r.Rows {
			tied := true
			if r.Ordered {
				c, _ := compareKeys(r.Keys[i], r.Keys[b], r.Ret.Order)
				c2, _ := compareKeys(r.Keys[i], r.Keys[b-1], r.Ret.Order)
				tied = c == 0 && c2 == 0
			}
			if tied && !same(i, b) {
				return false
			}
		}
	}
	r.Rows = r.Rows[from:to]
	if r.Keys != nil {
		r.Keys = r.Keys[from:to]
	}
	r.Skip, r.Limit = 0, -1
	return true
}

func (r *Result) window() (int, int) {
	from := r.Skip
	if from > len(r.Rows) {
		from = len(r.Rows)
	}
	to := len(r.Rows)
	if r.Limit >= 0 && from+r.Limit < to {
		to = from + r.Limit
	}
	return from, to
}

// ---- updates

func (x *Exec) update(u Clause, rows []Row) ([]Row, error) {
	switch t := u.(type) {
	case Create:
		var out []Row
		for _, r := range rows {
			nr := cloneRow(r)
			for _, p := range t.Parts {
				if err := x.createPart(p, nr); err != nil {
					return nil, err
				}
			}
			out = append(out, nr)
		}
		return out, nil
	case SetC:
		for _, r := range rows {
			if err := x.setItems(t.Items, r); err != nil {
				return nil, err
			}
		}
		return rows, nil
	case RemoveC:
		for _, r := range rows {
			env := x.child(r)
			for _, it := range t.Items {
				if it.Kind == "prop" {
					v, err := env.Eval(it.Target)
					if err != nil {
						return nil, err
					}
					switch e := v.(type) {
					case nil:
					case NodeRef:
						if x.g.nodes[int(e)] == nil {
							return nil, errUnspec
						}
						delete(x.g.nodes[int(e)].props, it.Key)
					default:
						return nil, errUnspec
					}
					continue
				}
				v, ok := env.lookup(it.Var)
				if !ok {
					return nil, errEval
				}
				switch e := v.(type) {
				case nil:
				case NodeRef:
					if x.g.nodes[int(e)] == nil {
						return nil, errUnspec
					}
					for _, l := range it.Labels {
						delete(x.g.nodes[int(e)].labels, l)
					}
				default:
					return nil, errUnspec
				}
			}
			x.nSet++
		}
		return rows, nil
	case Delete:
		nodes, edges := map[int]bool{}, map[int]bool{}
		for _, r := range rows {
			env := x.child(r)
			for _, e := range t.Exprs {
				v, err := env.Eval(e)
				if err != nil {
					return nil, err
				}
				switch d := v.(type) {
				case nil:
				case NodeRef:
					if x.g.nodes[int(d)] == nil {
						return nil, errUnspec
					}
					nodes[int(d)] = true
				case EdgePath:
					for _, id := range d.IDs {
						if x.g.edges[id] == nil {
							return nil, errUnspec
						}
						edges[id] = true
					}
				default:
					return nil, errUnspec
				}
			}
		}
		for _, id := range x.g.eorder {
			e := x.g.edges[id]
			if (nodes[e.from] || nodes[e.to]) && !edges[id] {
				if !t.Detach {
					return nil, errEval
				}
				edges[id] = true
			}
		}
		x.nDeleted += len(nodes) + len(edges)
		for id := range edges {
			x.g.removeEdge(id)
		}
		for id := range nodes {
			x.g.removeNode(id)
		}
		return rows, nil
	case Merge:
		var out []Row
		for _, r := range rows {
			found, err := x.matchParts([]Part{t.Part}, nil, r)
			if err != nil {
				return nil, err
			}
			created := len(found) == 0
			if created {
				nr := cloneRow(r)
				if err := x.createPart(t.Part, nr); err != nil {
					return nil, err
				}
				found = []Row{nr}
			} else {
				x.nMerged++
			}
			found = x.ord.rows(found)
			for _, a := range t.Actions {
				if a.OnCreate != created {
					continue
				}
				for _, f := range found {
					if err := x.setItems(a.Items, f); err != nil {
						return nil, err
					}
				}
			}
			out = append(out, found...)
			if x.maxRows > 0 && len(out) > x.maxRows {
				return nil, errUnspec
			}
		}
		return out, nil
	}
	panic("harness: update")
}

func (x *Exec) propsOf(p *PropsPat, env *Env) (map[string]V, error) {
	if p == nil {
		return nil, nil
	}
	if p.Map != nil {
		v, err := env.Eval(*p.Map)
		if err != nil {
			return nil, err
		}
		return v.(Map), nil
	}
	v, ok := env.lookupParam(p.Param)
	if !ok {
		return nil, errEval
	}
	m, ok := v.(Map)
	if !ok {
		return nil, errEval
	}
	return m, nil
}

// storedProps passes the properties through the filter
func (x *Exec) storedProps(m map[string]V) map[string]V {
	out := map[string]V{}
	for k, v := range m {
		out[k] = x.stored(k, v)
	}
	return out
}

func (x *Exec) createPart(p Part, row Row) error {
	env := x.child(row)
	node := func(n NodePat) (int, error) {
		if n.Var != "" {
			if v, ok := env.lookup(n.Var); ok {
				if len(n.Labels) > 0 || n.Props != nil {
					return 0, errEval
				}
				ref, ok := v.(NodeRef)
				if !ok {
					return 0, errEval
				}
				if x.g.nodes[int(ref)] == nil {
					return 0, errUnspec
				}
				return int(ref), nil
			}
		}
		props, err := x.propsOf(n.Props, env)
		if err != nil {
			return 0, err
		}
		m := x.g.addNode(n.Labels, x.storedProps(props))
		x.nCreated++
		if n.Var != "" {
			row[n.Var] = NodeRef(m.id)
		}
		return m.id, nil
	}
	last, err := node(p.Nodes[0])
	if err != nil {
		return err
	}
	var path []int
	for i, r := range p.Rels {
		to, err := node(p.Nodes[i+1])
		if err != nil {
			return err
		}
		if r.Range != nil || len(r.Types) > 1 {
			return errEval
		}
		if r.Var != "" {
			if _, ok := env.lookup(r.Var); ok {
				return errEval
			}
		}
		props, err := x.propsOf(r.Props, env)
		if err != nil {
			return err
		}
		typ := ""
		if len(r.Types) == 1 {
			typ = r.Types[0]
		}
		a, b := last, to
		if r.Dir == 2 {
			a, b = b, a
		}
		e := x.g.addEdge(a, b, typ, x.storedProps(props))
		x.nCreated++
		path = append(path, e.id)
		if r.Var != "" {
			row[r.Var] = EdgePath{[]int{e.id}}
		}
		last = to
	}
	if p.PathVar != "" {
		if len(path) == 0 {
			row[p.PathVar] = NodeRef(last)
		} else {
			row[p.PathVar] = EdgePath{path}
		}
	}
	return nil
}

func (x *Exec) setItems(items []SetItem, row Row) error {
	env := x.child(row)
	for _, it := range items {
		x.nSet++
		if it.Kind == "prop" {
			val, err := env.Eval(it.E)
			if err != nil {
				return err
			}
			v, err := env.Eval(it.Target)
			if err != nil {
				return err
			}
			switch t := v.(type) {
			case nil:
			case NodeRef:
				n := x.g.nodes[int(t)]
				if n == nil {
					return errUnspec
				}
				if val == nil {
					delete(n.props, it.Key)
				} else {
					n.props[it.Key] = cloneV(x.stored(it.Key, val))
				}
			default:
				return errUnspec
			}
			continue
		}
		var val V
		if it.Kind != "labels" {
			var err error
			val, err = env.Eval(it.E)
			if err != nil {
				return err
			}
		}
		v, ok := env.lookup(it.Var)
		if !ok {
			return errEval
		}
		if v == nil {
			continue
		}
		ref, ok := v.(NodeRef)
		if !ok {
			return errEval
		}
		n := x.g.nodes[int(ref)]
		if n == nil {
			return errUnspec
		}
		if it.Kind == "labels" {
			for _, l := range it.Labels {
				n.labels[l] = true
			}
			continue
		}
		src := map[string]V{}
		switch s := val.(type) {
		case NodeRef:
			o := x.g.nodes[int(s)]
			if o == nil {
				return errUnspec
			}
			for k, p := range o.props {
				src[k] = cloneV(p)
			}
		case Map:
			for k, p := range s {
				src[k] = cloneV(p)
			}
		default:
			return errEval
		}
		if it.Kind == "=" {
			n.props = map[string]V{}
		}
		for k, p := range src {
			if p == nil {
				delete(n.props, k)
			} else {
				n.props[k] = x.stored(k, p)
			}
		}
	}
	return nil
}
