package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	oc "github.com/cloudprivacylabs/opencypher"
)

// Cold starts: what the library and its dependencies set up when
// something is used for the first time only happens once per process, so
// a child process runs the first uses in several goroutines.

var coldTexts = []string{
	"RETURN parseDate('2020-01-31', 'YYYY-MM-DD') AS a",
	"RETURN parseDate('31.1.2020', 'D.M.YYYY') AS a",
	"RETURN parseDate('Jan 3 2020', 'MMM D YYYY') AS a",
	"RETURN date('2020-01-31') AS a, date('2020-1') AS b, date('2020') AS c",
	"RETURN date({year: 2020, month: 2, day: 3}) AS a",
	"RETURN date({timezone: 'Europe/Berlin'}) > date('2000-1-1') AS a",
	"RETURN date() > date('2000-01-01') AS a, timestamp() > 5 AS b",
	"RETURN range(0, 10) AS a, range(10, 0, -3) AS b, size(range(1,3)) AS c, size('日本') AS d",
	"RETURN left('abc', 2) AS a, right('abc', 1) AS b, substring('abcdef', 2) AS c, substring('abcdef', 1, 2) AS d",
	"RETURN trim(' a ') AS a, ltrim(' a ') AS b, rtrim(' a ') AS c, split('a,b', ',') AS d",
	"RETURN toInteger('12') AS a, toFloat('1.5') AS b, toIntegerOrNull('x') AS c, toFloatOrNull('y') AS d",
	"MATCH (n) RETURN size(labels(n)) AS a, 'A' IN labels(n) AS c, n.x AS b",
	"MATCH (n)-[r]->(m) RETURN type(r) AS a, r.x AS b, n.x AS c, m.x AS d",
	"MATCH (n)-[r:R|S*1..2]->(m) RETURN n.x AS a, m.x AS b",
	"OPTIONAL MATCH (n:Nosuch) RETURN n AS a",
	"MATCH (n:A {x: 1}) WHERE n.x > 0 AND NOT n.x IN [3, 4] OR n.x IS NULL XOR false RETURN n.x AS a ORDER BY a DESC SKIP 0 LIMIT 5",
	"MATCH (n) RETURN DISTINCT n.x AS a UNION MATCH (n) RETURN n.x AS a UNION ALL RETURN 1 AS a",
	"RETURN 'a\\n\\u00e9\\U0001F600' AS a, \"it's\" AS b, 0x1F AS c, 017 AS d, 1.5e3 AS e, .5 AS f",
	"RETURN CASE 1 WHEN 1 THEN 'a' ELSE 'b' END AS a, CASE WHEN true THEN 2 END AS b, [1,2,3][1] AS c, [1,2,3][0..2] AS d, {a: 1}.a AS e",
	"RETURN 'abc' STARTS WITH 'a' AS a, 'abc' ENDS WITH 'c' AS b, 'abc' CONTAINS 'b' AS c, 1 < 2 <= 3 AS d",
	"RETURN 1 + 2 * 3 - 4 / 2 % 3 ^ 2 AS a, -(1.5) AS b, 'a' + 'b' AS c, [1] + [2] AS d",
	"CREATE (n:New {x: 1, `a b`: 'c'})-[r:T {y: 2}]->(m:Other) RETURN n.x AS a, r.y AS b",
	"MATCH (n:A) SET n.y = 5, n:More, n += {z: 1} REMOVE n.x RETURN n.y AS a, n.x AS b",
	"MERGE (n:M {k: 1}) ON CREATE SET n.c = 1 ON MATCH SET n.m = 1 RETURN n.c AS a",
	"MATCH (n:B) DETACH DELETE n",
	"MATCH (n)-[r]->() DELETE r",
	"RETURN $p AS a, v AS b",
	"RETURN nosuch(1)",
	"RETURN 1 +",
	"RETURN ~",
	"RETURN `日 本` AS a",
	"return 1 As a Union all Return 2 as a",
	"UNWIND [1] AS x RETURN x",
	"RETURN date('2020-01-31') + v AS a",
}

// coldStart runs a few texts in several goroutines, as the first thing in
// the process. It prints what went wrong
func coldStart(seed int64) {
	r := rand.New(rand.NewSource(seed))
	var texts []string
	for i := 2 + r.Intn(6); i > 0; i-- {
		texts = append(texts, coldTexts[r.Intn(len(coldTexts))])
	}
	esc := r.Intn(4) == 0
	pat := r.Intn(4) == 0
	n := 3 + r.Intn(5)
	one := func(yield *rand.Rand) (out []string) {
		g := NewMGraph()
		a := g.addNode([]string{"A"}, map[string]V{"x": 1})
		b := g.addNode([]string{"B"}, map[string]V{"x": 2})
		c := g.addNode(nil, map[string]V{})
		g.addEdge(a.id, b.id, "R", map[string]V{"x": 1})
		g.addEdge(b.id, c.id, "S", map[string]V{})
		real := g.build()
		ctx := oc.NewEvalContext(real.g)
		ctx.SetParameter("$p", oc.ValueOf(map[string]interface{}{"a": []interface{}{1, uint8(2), "x", nil}}))
		ctx.SetVar("v", oc.ValueOf(oc.Duration{Days: 2}))
		defer func() {
			if e := recover(); e != nil {
				out = append(out, fmt.Sprint("panic: ", e))
			}
		}()
		for _, x := range texts {
			if yield != nil && yield.Intn(3) == 0 {
				runtime.Gosched()
			}
			o := runText(x, ctx)
			if o.Err != nil || o.Panic != "" {
				out = append(out, x+": "+o.String())
				continue
			}
			o.canonRows(real)
			out = append(out, x+": "+o.String())
		}
		if esc {
			out = append(out, oc.EscapeStringLiteral("a'\n\"\\"), oc.EscapeLabelLiteral("a`b"), oc.EscapePropertyKeyLiteral("x y"))
		}
		if pat {
			p, err := oc.ParsePatternExpr("(this:A)-[:R]->()-[:S]->(target)")
			if err != nil {
				return append(out, err.Error())
			}
			ns, err := p.FindRelative(real.nodes[a.id])
			out = append(out, fmt.Sprint(len(ns), err))
		}
		return
	}
	got := make([][]string, n)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < n; i++ {
		wg.Add(1)
		y := rand.New(rand.NewSource(r.Int63()))
		go func(i int) {
			defer wg.Done()
			<-start
			got[i] = one(y)
		}(i)
	}
	close(start)
	wg.Wait()
	want := strings.Join(one(nil), "\n")
	for i := range got {
		if s := strings.Join(got[i], "\n"); s != want {
			fmt.Printf("goroutine %d of %d, in a new process:\n%s\nalone:\n%s\n", i, n, s, want)
			os.Exit(1)
		}
	}
}

// coldCase runs coldStart in a child process
func coldCase(t *T) {
	self, _ := os.Executable()
	seed := t.rng.Int63()
	cmd := exec.Command(self, "cold", strconv.FormatInt(seed, 10))
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	if err := cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	timer := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	timer.Stop()
	t.Eval(1)
	t.Event("cold starts")
	if err != nil {
		s := out.String()
		if len(s) > 4000 {
			s = s[:4000]
		}
		t.Violate("first use in several goroutines of a new process (ocmon cold %d): %v\n%s", seed, err, s)
		return
	}
	t.Sig(fmt.Sprint("cold ", seed))
}
