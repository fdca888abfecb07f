package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
)

// V is a value of the reference model. It is one of: nil, bool, int,
// float64, string, List, Map, NodeRef, EdgePath, RDate, RLT, RLDT, RDur
type V = interface{}

type List []V
type Map map[string]V

// NodeRef is the id of a node of the model graph
type NodeRef int

// EdgePath is the value of a relationship variable
type EdgePath struct{ IDs []int }

type RDate struct{ Y, M, D int }
type RLT struct{ Nanos int64 } // nanoseconds of the day
type RLDT struct {
	Date  RDate
	Nanos int64
}
type RDur struct {
	Months, Days, Secs int64
	Nanos              int
}

// Opaque is a value with the identity Key, that the interpreter only
// passes on
type Opaque struct {
	Key string
	x   interface{}
}

func days(d RDate) int64 {
	return time.Date(d.Y, time.Month(d.M), d.D, 0, 0, 0, 0, time.UTC).Unix() / 86400
}
func fromDays(n int64) RDate {
	t := time.Unix(n*86400, 0).UTC()
	return RDate{t.Year(), int(t.Month()), t.Day()}
}

func fmtFloat(f float64) string {
	if f == 0 {
		f = 0 // drop the sign of zero
	}
	if math.IsNaN(f) {
		return "fNaN"
	}
	return "f" + strconv.FormatFloat(f, 'g', -1, 64)
}

// namer gives names to nodes and edges for canonical forms
type namer interface {
	nodeName(id int) string
	edgeName(id int) string
}

type plainNamer struct{}

func (plainNamer) nodeName(id int) string { return "N" + strconv.Itoa(id) }
func (plainNamer) edgeName(id int) string { return "E" + strconv.Itoa(id) }

// canon returns the canonical form of a model value
func canon(v V, n namer) string {
	if n == nil {
		n = plainNamer{}
	}
	switch t := v.(type) {
	case nil:
		return "null"
	case Opaque:
		return "opaque:" + t.Key
	case bool:
		return strconv.FormatBool(t)
	case int:
		return strconv.Itoa(t)
	case float64:
		return fmtFloat(t)
	case string:
		return strconv.Quote(t)
	case List:
		parts := make([]string, len(t))
		for i := range t {
			parts[i] = canon(t[i], n)
		}
		return "[" + strings.Join(parts, ", ") + "]"
	case Map:
		parts := make([]string, 0, len(t))
		for k, x := range t {
			parts = append(parts, strconv.Quote(k)+": "+canon(x, n))
		}
		sort.Strings(parts)
		return "{" + strings.Join(parts, ", ") + "}"
	case NodeRef:
		return "(" + n.nodeName(int(t)) + ")"
	case EdgePath:
		parts := make([]string, len(t.IDs))
		for i, id := range t.IDs {
			parts[i] = n.edgeName(id)
		}
		sort.Strings(parts)
		return "<" + strings.Join(parts, ",") + ">"
	case RDate:
		return fmt.Sprintf("date(%d-%d-%d)", t.Y, t.M, t.D)
	case RLT:
		return fmt.Sprintf("localtime(%d)", t.Nanos)
	case RLDT:
		return fmt.Sprintf("localdatetime(%d-%d-%d %d)", t.Date.Y, t.Date.M, t.Date.D, t.Nanos)
	case RDur:
		return fmt.Sprintf("dur(%d,%d,%d,%d)", t.Months, t.Days, t.Secs, t.Nanos)
	case lazySet:
		parts := make([]string, 0, len(t))
		for _, x := range t {
			parts = append(parts, canon(x, n))
		}
		sort.Strings(parts)
		return "set[" + strings.Join(parts, ", ") + "]"
	}
	panic(fmt.Sprintf("harness: canon of %T", v))
}

// lazySet is a list whose order is not specified (labels())
type lazySet []string

// realNamer names real nodes and edges
type realNamer interface {
	realNode(*lpg.Node) string
	realEdge(*lpg.Edge) string
}

// canonReal returns the canonical form of a value the interpreter
// returned. Types that are not documented for Value are rendered as
// BADTYPE, so they never equal the canonical form of a model value.
func canonReal(v oc.Value, n realNamer) string {
	if v == nil {
		return "BADTYPE(nil Value)"
	}
	return canonNative(v.Get(), n, true)
}

func nanosOfDay(t time.Time) int64 {
	return int64(t.Hour())*3600e9 + int64(t.Minute())*60e9 + int64(t.Second())*1e9 + int64(t.Nanosecond())
}

// canonNative: strict is set if x is what Value.Get returned: only the
// documented types are valid then. Otherwise x is a raw property.
func canonNative(x interface{}, n realNamer, strict bool) string {
	if r, ok := n.(*RealGraph); ok && r != nil && r.opaque != nil {
		if k, ok := r.opaque(x); ok {
			return "opaque:" + k
		}
	}
	switch t := x.(type) {
	case nil:
		return "null"
	case bool:
		return strconv.FormatBool(t)
	case int:
		return strconv.Itoa(t)
	case float64:
		return fmtFloat(t)
	case string:
		return strconv.Quote(t)
	case []oc.Value:
		parts := make([]string, len(t))
		for i := range t {
			parts[i] = canonReal(t[i], n)
		}
		return "[" + strings.Join(parts, ", ") + "]"
	case map[string]oc.Value:
		parts := make([]string, 0, len(t))
		for k, x := range t {
			parts = append(parts, strconv.Quote(k)+": "+canonReal(x, n))
		}
		sort.Strings(parts)
		return "{" + strings.Join(parts, ", ") + "}"
	case *lpg.Node:
		if t == nil {
			return "BADTYPE(nil node)"
		}
		return "(" + n.realNode(t) + ")"
	case *lpg.Path:
		if t == nil {
			return "BADTYPE(nil path)"
		}
		parts := make([]string, 0)
		for i := 0; i < t.NumEdges(); i++ {
			parts = append(parts, n.realEdge(t.GetEdge(i)))
		}
		sort.Strings(parts)
		return "<" + strings.Join(parts, ",") + ">"
	case oc.Date:
		tm := t.Time()
		if nanosOfDay(tm) != 0 || tm.Location() != time.UTC {
			return "BADTYPE(date with a time or zone " + tm.String() + ")"
		}
		return fmt.Sprintf("date(%d-%d-%d)", tm.Year(), int(tm.Month()), tm.Day())
	case oc.LocalTime:
		return fmt.Sprintf("localtime(%d)", nanosOfDay(t.Time()))
	case oc.LocalDateTime:
		tm := t.Time()
		return fmt.Sprintf("localdatetime(%d-%d-%d %d)", tm.Year(), int(tm.Month()), tm.Day(), nanosOfDay(tm))
	case oc.Duration:
		return fmt.Sprintf("dur(%d,%d,%d,%d)", t.Months, t.Days, t.Seconds, t.Nanos)
	}
	if strict {
		return fmt.Sprintf("BADTYPE(%T)", x)
	}
	switch t := x.(type) {
	case []string:
		l := List{}
		for _, s := range t {
			l = append(l, s)
		}
		return canon(l, nil)
	case []int:
		l := List{}
		for _, s := range t {
			l = append(l, s)
		}
		return canon(l, nil)
	case []interface{}:
		parts := make([]string, len(t))
		for i := range t {
			parts[i] = canonNative(t[i], n, false)
		}
		return "[" + strings.Join(parts, ", ") + "]"
	case map[string]interface{}:
		parts := make([]string, 0, len(t))
		for k, x := range t {
			parts = append(parts, strconv.Quote(k)+": "+canonNative(x, n, false))
		}
		sort.Strings(parts)
		return "{" + strings.Join(parts, ", ") + "}"
	case oc.Value:
		return fmt.Sprintf("BADTYPE(%T as property)", x)
	case int64:
		return strconv.FormatInt(t, 10)
	case int32:
		return strconv.FormatInt(int64(t), 10)
	}
	return fmt.Sprintf("BADTYPE(%T)", x)
}

// goTemporal converts model temporals to the types of the interpreter
func goTemporal(v V) interface{} {
	switch t := v.(type) {
	case RDate:
		return oc.NewDate(time.Date(t.Y, time.Month(t.M), t.D, 0, 0, 0, 0, time.UTC))
	case RLT:
		return oc.NewLocalTime(time.Date(2001, 2, 3, 0, 0, 0, int(t.Nanos), time.UTC))
	case RLDT:
		return oc.NewLocalDateTime(time.Date(t.Date.Y, time.Month(t.Date.M), t.Date.D, 0, 0, 0, int(t.Nanos), time.UTC))
	case RDur:
		return oc.Duration{Months: t.Months, Days: t.Days, Seconds: t.Secs, Nanos: t.Nanos}
	}
	return nil
}

// toValue builds an interpreter value from a model value. Slices get
// spare capacity with sentinels behind their end, so a write past the
// end of a list can be noticed.
func toValue(v V, g *RealGraph) oc.Value {
	switch t := v.(type) {
	case List:
		arr := make([]oc.Value, len(t), len(t)+4)
		for i := range t {
			arr[i] = toValue(t[i], g)
		}
		full := arr[:cap(arr)]
		for i := len(arr); i < len(full); i++ {
			full[i] = sentinel
		}
		return oc.RValue{Value: arr}
	case Map:
		m := make(map[string]oc.Value)
		for k, x := range t {
			m[k] = toValue(x, g)
		}
		return oc.RValue{Value: m}
	case RDate, RLT, RLDT, RDur:
		return oc.RValue{Value: goTemporal(v)}
	case NodeRef:
		return oc.RValue{Value: g.nodes[int(t)]}
	case Opaque:
		return oc.RValue{Value: t.x}
	}
	return oc.RValue{Value: v}
}

var sentinel oc.Value = oc.RValue{Value: "harness-sentinel"}

// sentinelsIntact checks the spare capacity of the lists in v
func sentinelsIntact(v oc.Value) bool {
	switch t := v.Get().(type) {
	case []oc.Value:
		full := t[:cap(t)]
		for i := len(t); i < len(full); i++ {
			if full[i] == nil || full[i].Get() != "harness-sentinel" {
				return false
			}
		}
		for _, x := range t {
			if !sentinelsIntact(x) {
				return false
			}
		}
	case map[string]oc.Value:
		for _, x := range t {
			if !sentinelsIntact(x) {
				return false
			}
		}
	}
	return true
}

// toNative converts a model value into a property value of lpg
func toNative(v V) interface{} {
	switch t := v.(type) {
	case List:
		arr := make([]interface{}, len(t))
		for i := range t {
			arr[i] = toNative(t[i])
		}
		return arr
	case Map:
		m := make(map[string]interface{})
		for k, x := range t {
			m[k] = toNative(x)
		}
		return m
	case RDate, RLT, RLDT, RDur:
		return goTemporal(v)
	}
	return v
}

// cloneV makes a deep copy of a value
func cloneV(v V) V {
	switch t := v.(type) {
	case List:
		r := make(List, len(t))
		for i := range t {
			r[i] = cloneV(t[i])
		}
		return r
	case Map:
		r := Map{}
		for k, x := range t {
			r[k] = cloneV(x)
		}
		return r
	case EdgePath:
		return EdgePath{append([]int(nil), t.IDs...)}
	}
	return v
}

// nodeOf returns the node in a value, or nil
func nodeOf(v oc.Value) *lpg.Node {
	n, _ := v.Get().(*lpg.Node)
	return n
}

// sortedKeys gives an order, so that a seed determines what is generated
func sortedKeys(m map[string]V) []string {
	ret := make([]string, 0, len(m))
	for k := range m {
		ret = append(ret, k)
	}
	sort.Strings(ret)
	return ret
}
