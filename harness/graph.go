package main

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
)

// MGraph is the model of a property graph
type MGraph struct {
	nodes  map[int]*MNode
	edges  map[int]*MEdge
	norder []int
	eorder []int
	next   int
	nIndex map[string]lpg.IndexType // indexed node properties
	eIndex map[string]lpg.IndexType
	tagged bool
}

type MNode struct {
	id     int
	labels map[string]bool
	props  map[string]V
	old    bool // was there before the statement
}

type MEdge struct {
	id       int
	from, to int
	typ      string
	props    map[string]V
	old      bool
}

func NewMGraph() *MGraph {
	return &MGraph{nodes: map[int]*MNode{}, edges: map[int]*MEdge{}, nIndex: map[string]lpg.IndexType{}, eIndex: map[string]lpg.IndexType{}}
}

func (g *MGraph) addNode(labels []string, props map[string]V) *MNode {
	n := &MNode{id: g.next, labels: map[string]bool{}, props: map[string]V{}}
	g.next++
	for _, l := range labels {
		n.labels[l] = true
	}
	for k, v := range props {
		if v != nil {
			n.props[k] = cloneV(v)
		}
	}
	g.nodes[n.id] = n
	g.norder = append(g.norder, n.id)
	return n
}

func (g *MGraph) addEdge(from, to int, typ string, props map[string]V) *MEdge {
	e := &MEdge{id: g.next, from: from, to: to, typ: typ, props: map[string]V{}}
	g.next++
	for k, v := range props {
		if v != nil {
			e.props[k] = cloneV(v)
		}
	}
	g.edges[e.id] = e
	g.eorder = append(g.eorder, e.id)
	return e
}

func (g *MGraph) removeEdge(id int) {
	delete(g.edges, id)
	for i, x := range g.eorder {
		if x == id {
			g.eorder = append(g.eorder[:i:i], g.eorder[i+1:]...)
			break
		}
	}
}
func (g *MGraph) removeNode(id int) {
	delete(g.nodes, id)
	for i, x := range g.norder {
		if x == id {
			g.norder = append(g.norder[:i:i], g.norder[i+1:]...)
			break
		}
	}
}

func (g *MGraph) clone() *MGraph {
	c := NewMGraph()
	c.next = g.next
	for k, v := range g.nIndex {
		c.nIndex[k] = v
	}
	for k, v := range g.eIndex {
		c.eIndex[k] = v
	}
	for _, id := range g.norder {
		n := g.nodes[id]
		m := &MNode{id: id, labels: map[string]bool{}, props: map[string]V{}, old: n.old}
		for l := range n.labels {
			m.labels[l] = true
		}
		for k, v := range n.props {
			m.props[k] = cloneV(v)
		}
		c.nodes[id] = m
		c.norder = append(c.norder, id)
	}
	for _, id := range g.eorder {
		e := g.edges[id]
		m := &MEdge{id: id, from: e.from, to: e.to, typ: e.typ, props: map[string]V{}, old: e.old}
		for k, v := range e.props {
			m.props[k] = cloneV(v)
		}
		c.edges[id] = m
		c.eorder = append(c.eorder, id)
	}
	return c
}

func (g *MGraph) markOld() {
	for _, n := range g.nodes {
		n.old = true
	}
	for _, e := range g.edges {
		e.old = true
	}
}

func (g *MGraph) String() string {
	var b strings.Builder
	for _, id := range g.norder {
		n := g.nodes[id]
		fmt.Fprintf(&b, "(N%d%s %s) ", id, labelText(n.labels), canon(Map(n.props), nil))
	}
	for _, id := range g.eorder {
		e := g.edges[id]
		fmt.Fprintf(&b, "(N%d)-[E%d:%s %s]->(N%d) ", e.from, id, e.typ, canon(Map(e.props), nil), e.to)
	}
	for _, k := range sortedIndexes(g.nIndex) {
		t := g.nIndex[k]
		fmt.Fprintf(&b, "index(node %s %v) ", k, t)
	}
	for _, k := range sortedIndexes(g.eIndex) {
		t := g.eIndex[k]
		fmt.Fprintf(&b, "index(edge %s %v) ", k, t)
	}
	return b.String()
}

func labelText(m map[string]bool) string {
	ls := make([]string, 0)
	for l := range m {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	out := ""
	for _, l := range ls {
		out += ":" + l
	}
	return out
}

// RealGraph is a real graph with the names of its model elements
type RealGraph struct {
	g      *lpg.Graph
	nodes  map[int]*lpg.Node
	edges  map[int]*lpg.Edge
	nodeID map[*lpg.Node]int
	edgeID map[*lpg.Edge]int
	// names of elements that are not in the model
	nodeColor map[*lpg.Node]string
	edgeColor map[*lpg.Edge]string
	// opaque gives the keys of opaque values, for a check that uses some
	opaque func(x interface{}) (string, bool)
}

// build makes a real graph from the model
func (g *MGraph) build() *RealGraph {
	r := &RealGraph{g: lpg.NewGraph(), nodes: map[int]*lpg.Node{}, edges: map[int]*lpg.Edge{}, nodeID: map[*lpg.Node]int{}, edgeID: map[*lpg.Edge]int{}}
	for _, k := range sortedIndexes(g.nIndex) {
		t := g.nIndex[k]
		r.g.AddNodePropertyIndex(k, t)
	}
	for _, k := range sortedIndexes(g.eIndex) {
		t := g.eIndex[k]
		r.g.AddEdgePropertyIndex(k, t)
	}
	for _, id := range g.norder {
		n := g.nodes[id]
		ls := make([]string, 0)
		for l := range n.labels {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		props := map[string]interface{}{}
		for k, v := range n.props {
			props[k] = toNative(v)
		}
		x := r.g.NewNode(ls, props)
		r.nodes[id] = x
		r.nodeID[x] = id
	}
	for _, id := range g.eorder {
		e := g.edges[id]
		props := map[string]interface{}{}
		for k, v := range e.props {
			props[k] = toNative(v)
		}
		x := r.g.NewEdge(r.nodes[e.from], r.nodes[e.to], e.typ, props)
		r.edges[id] = x
		r.edgeID[x] = id
	}
	return r
}

func (r *RealGraph) realNode(n *lpg.Node) string {
	if id, ok := r.nodeID[n]; ok {
		return "N" + strconv.Itoa(id)
	}
	if c, ok := r.nodeColor[n]; ok {
		return "new" + c
	}
	return "unknown-node"
}
func (r *RealGraph) realEdge(e *lpg.Edge) string {
	if id, ok := r.edgeID[e]; ok {
		return "E" + strconv.Itoa(id)
	}
	if c, ok := r.edgeColor[e]; ok {
		return "new" + c
	}
	return "unknown-edge"
}

func hash(s string) string {
	h := fnv.New64a()
	h.Write([]byte(s))
	return strconv.FormatUint(h.Sum64(), 36)
}

// Snapshot is a graph in comparable form: elements that were there
// before are named by their ids, new ones by a structural color
type Snapshot struct {
	Nodes, Edges []string
	ncolor       map[int]string
	ecolor       map[int]string
}

func (s *Snapshot) diff(o *Snapshot) string {
	d := diffBags(s.Nodes, o.Nodes, "node")
	if d == "" {
		d = diffBags(s.Edges, o.Edges, "edge")
	}
	return d
}

// diffBags compares expected and observed multisets
func diffBags(exp, got []string, what string) string {
	a := append([]string(nil), exp...)
	b := append([]string(nil), got...)
	sort.Strings(a)
	sort.Strings(b)
	i, j := 0, 0
	var missing, extra []string
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			missing = append(missing, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			extra = append(extra, b[j])
			j++
		default:
			i++
			j++
		}
	}
	if len(missing) == 0 && len(extra) == 0 {
		return ""
	}
	return fmt.Sprintf("%d %ss expected, %d observed; missing: %s; unexpected: %s", len(exp), what, len(got), clip(missing), clip(extra))
}

func clip(s []string) string {
	if len(s) > 6 {
		return strings.Join(s[:6], " | ") + fmt.Sprintf(" ... (%d)", len(s))
	}
	return strings.Join(s, " | ")
}

type gNode struct {
	name    string // for elements that were there before
	content string
}
type gEdge struct {
	name     string
	content  string
	from, to int
}

// colorGraph assigns colors to nodes by refinement
func colorGraph(nodes map[int]gNode, edges map[int]gEdge) *Snapshot {
	color := map[int]string{}
	nNew := 0
	for id, n := range nodes {
		if n.name != "" {
			color[id] = n.name
		} else {
			color[id] = hash(n.content)
			nNew++
		}
	}
	adj := map[int][]int{}
	for id, e := range edges {
		adj[e.from] = append(adj[e.from], id)
		if e.to != e.from {
			adj[e.to] = append(adj[e.to], id)
		}
	}
	rounds := nNew
	if rounds > 6 {
		rounds = 6
	}
	for i := 0; i < rounds; i++ {
		next := map[int]string{}
		for id, n := range nodes {
			if n.name != "" {
				next[id] = n.name
				continue
			}
			parts := make([]string, 0)
			for _, eid := range adj[id] {
				e := edges[eid]
				d := ""
				if e.from == id {
					d += ">" + color[e.to]
				}
				if e.to == id {
					d += "<" + color[e.from]
				}
				parts = append(parts, e.name+"|"+e.content+"|"+d)
			}
			sort.Strings(parts)
			next[id] = hash(color[id] + "#" + strings.Join(parts, "#"))
		}
		color = next
	}
	s := &Snapshot{ncolor: map[int]string{}, ecolor: map[int]string{}}
	for id, n := range nodes {
		nm := n.name
		if nm == "" {
			nm = "new" + color[id]
		}
		s.ncolor[id] = color[id]
		s.Nodes = append(s.Nodes, nm+n.content)
	}
	nm := func(id int) string {
		if n := nodes[id]; n.name != "" {
			return n.name
		}
		return "new" + color[id]
	}
	for id, e := range edges {
		x := e.name
		c := "(" + nm(e.from) + ")" + e.content + "(" + nm(e.to) + ")"
		if x == "" {
			x = "new"
			s.ecolor[id] = hash(c)
		}
		s.Edges = append(s.Edges, x+c)
	}
	sort.Strings(s.Nodes)
	sort.Strings(s.Edges)
	return s
}

func (g *MGraph) snapshot() *Snapshot {
	nodes := map[int]gNode{}
	for id, n := range g.nodes {
		x := gNode{content: labelText(n.labels) + canon(Map(n.props), nil)}
		if n.old {
			x.name = "N" + strconv.Itoa(id)
		}
		nodes[id] = x
	}
	edges := map[int]gEdge{}
	for id, e := range g.edges {
		x := gEdge{content: "-[" + strconv.Quote(e.typ) + canon(Map(e.props), nil) + "]->", from: e.from, to: e.to}
		if e.old {
			x.name = "E" + strconv.Itoa(id)
		}
		edges[id] = x
	}
	return colorGraph(nodes, edges)
}

// snapshotNamer names model elements by the snapshot
type snapshotNamer struct {
	g *MGraph
	s *Snapshot
}

func (n snapshotNamer) nodeName(id int) string {
	x := n.g.nodes[id]
	if x == nil || x.old {
		return "N" + strconv.Itoa(id)
	}
	return "new" + n.s.ncolor[id]
}
func (n snapshotNamer) edgeName(id int) string {
	x := n.g.edges[id]
	if x == nil || x.old {
		return "E" + strconv.Itoa(id)
	}
	return "new" + n.s.ecolor[id]
}

func realLabels(n *lpg.Node) string {
	m := map[string]bool{}
	for _, l := range n.GetLabels().Slice() {
		m[l] = true
	}
	return labelText(m)
}

func propsText(f func(func(string, interface{}) bool) bool, r *RealGraph) string {
	parts := make([]string, 0)
	f(func(k string, v interface{}) bool {
		parts = append(parts, strconv.Quote(k)+": "+canonNative(v, r, false))
		return true
	})
	sort.Strings(parts)
	return "{" + strings.Join(parts, ", ") + "}"
}

// snapshot reads the whole real graph through its node and edge lists
func (r *RealGraph) snapshot() *Snapshot {
	ids := map[*lpg.Node]int{}
	nodes := map[int]gNode{}
	i := 0
	var rn []*lpg.Node
	for itr := r.g.GetNodes(); itr.Next(); {
		n := itr.Node()
		if _, dup := ids[n]; dup {
			nodes[i] = gNode{content: "DUPLICATE NODE"}
			rn = append(rn, n)
			i++
			continue
		}
		ids[n] = i
		x := gNode{content: realLabels(n) + propsText(n.ForEachProperty, r)}
		if id, ok := r.nodeID[n]; ok {
			x.name = "N" + strconv.Itoa(id)
		}
		nodes[i] = x
		rn = append(rn, n)
		i++
	}
	edges := map[int]gEdge{}
	var re []*lpg.Edge
	j := 0
	for itr := r.g.GetEdges(); itr.Next(); {
		e := itr.Edge()
		f, ok1 := ids[e.GetFrom()]
		t, ok2 := ids[e.GetTo()]
		x := gEdge{content: "-[" + strconv.Quote(e.GetLabel()) + propsText(e.ForEachProperty, r) + "]->", from: f, to: t}
		if !ok1 || !ok2 {
			x.content += " DANGLING"
		}
		if id, ok := r.edgeID[e]; ok {
			x.name = "E" + strconv.Itoa(id)
		}
		edges[j] = x
		re = append(re, e)
		j++
	}
	s := colorGraph(nodes, edges)
	r.nodeColor = map[*lpg.Node]string{}
	for k, n := range rn {
		r.nodeColor[n] = s.ncolor[k]
	}
	r.edgeColor = map[*lpg.Edge]string{}
	for k, e := range re {
		r.edgeColor[e] = s.ecolor[k]
	}
	return s
}

// consistency checks that the different access paths of the graph agree
func (r *RealGraph) consistency(g *MGraph) string {
	n, e := 0, 0
	nodes := map[*lpg.Node]bool{}
	labels := map[string]map[*lpg.Node]bool{}
	for itr := r.g.GetNodes(); itr.Next(); {
		n++
		x := itr.Node()
		nodes[x] = true
		for _, l := range x.GetLabels().Slice() {
			if labels[l] == nil {
				labels[l] = map[*lpg.Node]bool{}
			}
			labels[l][x] = true
		}
	}
	if n != r.g.NumNodes() {
		return fmt.Sprintf("graph says it has %d nodes, but it has %d", r.g.NumNodes(), n)
	}
	edges := map[*lpg.Edge]bool{}
	for itr := r.g.GetEdges(); itr.Next(); {
		e++
		edges[itr.Edge()] = true
	}
	if e != r.g.NumEdges() {
		return fmt.Sprintf("graph says it has %d edges, but it has %d", r.g.NumEdges(), e)
	}
	for _, l := range append([]string{"A", "B", "C", "D", "Person"}, keysOf(labels)...) {
		got := map[*lpg.Node]bool{}
		for itr := r.g.GetNodesWithAllLabels(lpg.NewStringSet(l)); itr.Next(); {
			got[itr.Node()] = true
		}
		if len(got) != len(labels[l]) {
			return fmt.Sprintf("label scan of %s has %d nodes, but %d nodes have the label", l, len(got), len(labels[l]))
		}
		for x := range got {
			if !labels[l][x] {
				return "label scan of " + l + " has a node without that label"
			}
		}
	}
	out, in := 0, 0
	for x := range nodes {
		for itr := x.GetEdges(lpg.OutgoingEdge); itr.Next(); {
			out++
			if itr.Edge().GetFrom() != x || !edges[itr.Edge()] {
				return "outgoing edges of a node are wrong"
			}
		}
		for itr := x.GetEdges(lpg.IncomingEdge); itr.Next(); {
			in++
			if itr.Edge().GetTo() != x || !edges[itr.Edge()] {
				return "incoming edges of a node are wrong"
			}
		}
	}
	if out != e || in != e {
		return fmt.Sprintf("%d edges, but %d outgoing, and %d incoming", e, out, in)
	}
	for k := range g.nIndex {
		want := map[*lpg.Node]bool{}
		for x := range nodes {
			if v, ok := x.GetProperty(k); ok {
				want[x] = true
				found := false
				ls := x.GetLabels()
				if ls.Len() == 0 {
					continue // FindNodes of lpg needs a label
				}
				for itr := r.g.FindNodes(ls, map[string]interface{}{k: v}); itr.Next(); {
					if itr.Node() == x {
						found = true
					}
				}
				switch v.(type) {
				case int, string:
					if !found {
						return fmt.Sprintf("a node with %s=%v cannot be found by the index", k, v)
					}
				}
			}
		}
		got := 0
		for itr := r.g.GetNodesWithProperty(k); itr.Next(); {
			got++
			if !want[itr.Node()] {
				return "the property index of " + k + " has a node without it"
			}
		}
		if got != len(want) {
			return fmt.Sprintf("the property index of %s has %d nodes, but %d nodes have it", k, got, len(want))
		}
	}
	return ""
}

func keysOf(m map[string]map[*lpg.Node]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var typePool = []string{"R", "S", "KNOWS"}

// GraphGen parameters
type GraphGen struct {
	rng        *rand.Rand
	nMin, nMax int
	eMax       int
	loops      bool
	wide       bool // properties of every type
	index      int  // percent of graphs with indexes
	large      int  // one of so many graphs is large
}

func (gg GraphGen) gen() *MGraph {
	r := gg.rng
	g := NewMGraph()
	n := gg.nMin
	if gg.nMax > gg.nMin {
		n += r.Intn(gg.nMax - gg.nMin + 1)
	}
	eg := NewEGen(r)
	eMax, types := gg.eMax, typePool
	large := gg.large > 0 && r.Intn(gg.large) == 0
	if large {
		n += 6 + r.Intn(30)
		eMax += n / 2
		types = append(types[:len(types):len(types)], "T1", "T2", "T3", "T4", "T5", "T6")
	}
	for i := 0; i < n; i++ {
		var ls []string
		for _, l := range labelPool[:3] {
			if r.Intn(5) < 2 {
				ls = append(ls, l)
			}
		}
		if (large && r.Intn(5) == 0) || (gg.large > 0 && r.Intn(20) == 0) {
			for _, l := range []string{"L1", "L2", "L3", "L4", "L5", "L6", "Person"} {
				if r.Intn(2) == 0 {
					ls = append(ls, l)
				}
			}
		}
		g.addNode(ls, gg.props(eg, "n"))
	}
	if n > 0 {
		m := 0
		if eMax > 0 {
			m = r.Intn(eMax + 1)
		}
		for i := 0; i < m; i++ {
			a, b := g.norder[r.Intn(n)], g.norder[r.Intn(n)]
			if a == b && !(gg.loops && r.Intn(2) == 0) {
				b = g.norder[r.Intn(n)]
				if a == b && !gg.loops {
					continue
				}
			}
			g.addEdge(a, b, types[r.Intn(len(types))], gg.props(eg, "e"))
		}
	}
	if r.Intn(100) < gg.index {
		ix := func() lpg.IndexType { return []lpg.IndexType{lpg.BtreeIndex, lpg.HashIndex}[r.Intn(2)] }
		for _, k := range []string{"x", "name"} {
			if r.Intn(2) == 0 {
				g.nIndex[k] = ix()
			}
		}
		if r.Intn(3) == 0 {
			g.eIndex["x"] = ix()
		}
	}
	return g
}

// props: x is always an int, name a string, f a float, b a bool, l a
// list of ints, ls a list of strings
func (gg GraphGen) props(eg *EGen, kind string) map[string]V {
	r := gg.rng
	p := map[string]V{}
	if gg.large > 0 && r.Intn(100) == 0 {
		for i := 8 + r.Intn(20); i > 0; i-- {
			p["k"+strconv.Itoa(i)] = i
		}
	}
	if r.Intn(10) < 7 {
		p["x"] = r.Intn(4)
	}
	if r.Intn(10) < 4 {
		p["name"] = []string{"a", "b", "it's", "日"}[r.Intn(4)]
	}
	if r.Intn(10) < 3 {
		p["y"] = r.Intn(3)
	}
	if gg.wide {
		if r.Intn(3) == 0 {
			p["f"] = eg.genFloat()
		}
		if r.Intn(3) == 0 {
			p["b"] = r.Intn(2) == 0
		}
		if r.Intn(4) == 0 {
			p["l"] = eg.genValue(TLInt)
		}
		if r.Intn(4) == 0 {
			p["ls"] = eg.genValue(TLStr)
		}
		if r.Intn(6) == 0 {
			p["big"] = eg.genInt()
		}
		if r.Intn(6) == 0 {
			p["str"] = genStr(r)
		}
	}
	return p
}

var _ oc.Value

// fromNative converts a property of a real graph to a model value
func fromNative(x interface{}) V {
	switch t := x.(type) {
	case []interface{}:
		l := List{}
		for _, e := range t {
			l = append(l, fromNative(e))
		}
		return l
	case []oc.Value:
		l := List{}
		for _, e := range t {
			l = append(l, fromNative(e.Get()))
		}
		return l
	case []string:
		l := List{}
		for _, e := range t {
			l = append(l, e)
		}
		return l
	case map[string]interface{}:
		m := Map{}
		for k, e := range t {
			m[k] = fromNative(e)
		}
		return m
	case map[string]oc.Value:
		m := Map{}
		for k, e := range t {
			m[k] = fromNative(e.Get())
		}
		return m
	case oc.Date:
		d := t.Time()
		return RDate{d.Year(), int(d.Month()), d.Day()}
	case oc.LocalTime:
		return RLT{nanosOfDay(t.Time())}
	case oc.LocalDateTime:
		d := t.Time()
		return RLDT{RDate{d.Year(), int(d.Month()), d.Day()}, nanosOfDay(d)}
	case oc.Duration:
		return RDur{t.Months, t.Days, t.Seconds, t.Nanos}
	}
	return x
}

// importGraph makes a model of a real graph
func (r *RealGraph) importGraph(like *MGraph) (*MGraph, *RealGraph) {
	g := NewMGraph()
	g.nIndex, g.eIndex = like.nIndex, like.eIndex
	n := &RealGraph{g: r.g, nodes: map[int]*lpg.Node{}, edges: map[int]*lpg.Edge{}, nodeID: map[*lpg.Node]int{}, edgeID: map[*lpg.Edge]int{}}
	for itr := r.g.GetNodes(); itr.Next(); {
		x := itr.Node()
		props := map[string]V{}
		x.ForEachProperty(func(k string, v interface{}) bool {
			props[k] = fromNative(v)
			return true
		})
		m := g.addNode(x.GetLabels().Slice(), props)
		n.nodes[m.id], n.nodeID[x] = x, m.id
	}
	for itr := r.g.GetEdges(); itr.Next(); {
		x := itr.Edge()
		props := map[string]V{}
		x.ForEachProperty(func(k string, v interface{}) bool {
			props[k] = fromNative(v)
			return true
		})
		m := g.addEdge(n.nodeID[x.GetFrom()], n.nodeID[x.GetTo()], x.GetLabel(), props)
		n.edges[m.id], n.edgeID[x] = x, m.id
	}
	return g, n
}

// rawText is the whole graph with the Go types of its properties, and
// the elements in the spare capacity of its lists
func (r *RealGraph) rawText() string {
	var parts []string
	props := func(f func(func(string, interface{}) bool) bool) string {
		var ps []string
		f(func(k string, v interface{}) bool {
			ps = append(ps, strconv.Quote(k)+":"+rawValue(v, r))
			return true
		})
		sort.Strings(ps)
		return strings.Join(ps, ",")
	}
	for itr := r.g.GetNodes(); itr.Next(); {
		n := itr.Node()
		parts = append(parts, r.realNode(n)+realLabels(n)+props(n.ForEachProperty))
	}
	for itr := r.g.GetEdges(); itr.Next(); {
		e := itr.Edge()
		parts = append(parts, r.realEdge(e)+r.realNode(e.GetFrom())+r.realNode(e.GetTo())+strconv.Quote(e.GetLabel())+props(e.ForEachProperty))
	}
	return strings.Join(parts, "\n")
}

func rawValue(x interface{}, r *RealGraph) string {
	switch t := x.(type) {
	case []interface{}:
		s := fmt.Sprintf("[]interface{}/%d[", len(t))
		for _, e := range t[:cap(t)] {
			s += rawValue(e, r) + ","
		}
		return s + "]"
	case []oc.Value:
		s := fmt.Sprintf("[]Value/%d[", len(t))
		for _, e := range t[:cap(t)] {
			if e == nil {
				s += "nil,"
				continue
			}
			s += rawValue(e.Get(), r) + ","
		}
		return s + "]"
	case []string:
		return fmt.Sprintf("[]string/%d%q", len(t), t[:cap(t)])
	case []int:
		return fmt.Sprintf("[]int/%d%v", len(t), t[:cap(t)])
	case map[string]interface{}:
		var ps []string
		for k, e := range t {
			ps = append(ps, strconv.Quote(k)+rawValue(e, r))
		}
		sort.Strings(ps)
		return "map{" + strings.Join(ps, ",") + "}"
	case map[string]oc.Value:
		var ps []string
		for k, e := range t {
			ps = append(ps, strconv.Quote(k)+rawValue(e.Get(), r))
		}
		sort.Strings(ps)
		return "vmap{" + strings.Join(ps, ",") + "}"
	case oc.Duration:
		return fmt.Sprintf("duration%v", canonNative(x, r, false))
	case *lpg.Node:
		return "(" + r.realNode(t) + ")"
	}
	return fmt.Sprintf("%T:%s", x, canonNative(x, r, false))
}

func sortedIndexes(m map[string]lpg.IndexType) []string {
	ret := make([]string, 0, len(m))
	for k := range m {
		ret = append(ret, k)
	}
	sort.Strings(ret)
	return ret
}
