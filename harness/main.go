package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	_ "time/tzdata"

	oc "github.com/cloudprivacylabs/opencypher"
)

// Check is a property and its check
type Check struct {
	ID       string
	Rule     string
	Quick    int // cases
	Thorough int
	Procs    int // 0: number of cores
	Run      func(t *T)
	Pinned   func(t *T) // fixed cases, run once by the first worker
	Race     bool
}

var props = map[string]*Check{}

func register(p *Check) { props[p.ID] = p }

// T is the state of a worker
type T struct {
	prop  *Check
	tier  string
	seed  int64
	index int
	rng   *rand.Rand
	out   *bufio.Writer
	known map[string]bool
	// observations
	Evals   int
	Skipped int
	sigs    map[uint64]bool
	Events  map[string]int
	samples []string
	nViol   int
	beside  []string // violations, if the case runs beside others in one process
	sub     bool
	slowest time.Duration
	slowIdx int
	replay  bool
}

// Eval counts executions that the monitors judged
func (t *T) Eval(n int) { t.Evals += n }
func (t *T) Skip()      { t.Skipped++ }

// Sig records a distinct, non-trivial case
func (t *T) Sig(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	t.sigs[h.Sum64()] = true
	if len(t.samples) < 2 || (len(t.samples) < 3 && h.Sum64()%40 == 0) {
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		t.samples = append(t.samples, s)
	}
}
func (t *T) Event(k string) { t.Events[k]++ }
func (t *T) EventN(k string, n int) {
	t.Events[k] += n
}

type message struct {
	Kind    string
	Index   int
	Key     string
	Detail  string
	Evals   int
	Skipped int
	Sigs    []uint64
	Events  map[string]int
	Samples []string
	Slowest time.Duration
	SlowIdx int
}

func (t *T) send(m message) {
	b, _ := json.Marshal(m)
	t.out.Write(b)
	t.out.WriteByte('\n')
	t.out.Flush()
}

// Violate reports a violation
func (t *T) Violate(format string, args ...interface{}) {
	t.nViol++
	if t.sub {
		t.beside = append(t.beside, strings.ToValidUTF8(fmt.Sprintf(format, args...), "?"))
		return
	}
	t.send(message{Kind: "violation", Index: t.index, Detail: strings.ToValidUTF8(fmt.Sprintf(format, args...), "?")})
}

// Known reports that a pinned defect was seen. It is a violation unless
// it is listed in the known findings
func (t *T) Known(key, detail string) {
	if t.known[t.prop.ID+" "+key] {
		if t.sub {
			return
		}
		t.send(message{Kind: "known", Index: t.index, Key: key, Detail: detail})
		return
	}
	t.Violate("%s: %s", key, detail)
}

func caseRng(prop string, seed int64, index int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", prop, seed, index)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

func (t *T) runCase(index int) {
	t.index = index
	t.rng = caseRng(t.prop.ID, t.seed, index)
	if p := protect(func() {
		if index < 0 {
			t.prop.Pinned(t)
		} else {
			t.prop.Run(t)
		}
	}); p != "" {
		if strings.Contains(p, "harness:") {
			fmt.Fprintln(os.Stderr, "HARNESS ERROR", t.prop.ID, index, p)
			os.Exit(7)
		}
		t.Violate("panic: %s", p)
	}
}

var verifDir = func() string {
	if d := os.Getenv("OCMON_DIR"); d != "" {
		return d
	}
	return "/verif"
}()

// knownFindings reads the committed list. Lines:
//
//	known: property=<id> key=<key> <text>
//	fixed: property=<id> <commit> <text>
func knownFindings() map[string]bool {
	m := map[string]bool{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		f := strings.Fields(l)
		if len(f) >= 3 && strings.HasPrefix(f[1], "property=") && strings.HasPrefix(f[2], "key=") {
			m[strings.TrimPrefix(f[1], "property=")+" "+strings.TrimPrefix(f[2], "key=")] = true
		}
	}
	return m
}

const maxCaseCPU = 45 * time.Second
const maxIdle = 120 * time.Second
const maxRSS = 2500 << 20

// maxWall is when a check stops starting new cases, so that it always
// gives its answer
func maxWall(tier string) time.Duration {
	if tier == "thorough" {
		return 40 * time.Minute
	}
	return 9 * time.Minute
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

func worker(p *Check, tier string, seed int64, cases []int, stride, start, n int, journal string) {
	debug.SetMaxStack(256 << 20)
	runtime.GOMAXPROCS(2)
	if p.Race {
		runtime.GOMAXPROCS(4)
	}
	debug.SetGCPercent(200)
	t := &T{prop: p, tier: tier, seed: seed, out: bufio.NewWriter(os.Stdout), sigs: map[uint64]bool{}, Events: map[string]int{}, known: knownFindings()}
	jf, err := os.OpenFile(journal, os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(7)
	}
	var caseStart int64 = int64(cpuTime())
	go func() {
		idle, last := time.Now(), cpuTime()
		for {
			time.Sleep(200 * time.Millisecond)
			if c := cpuTime(); c-last > 500*time.Millisecond {
				idle, last = time.Now(), c
			} else if time.Since(idle) > maxIdle {
				buf := make([]byte, 1<<16)
				fmt.Fprintf(os.Stderr, "hang: a case has used no processor time for %v\n%s\n", maxIdle, buf[:runtime.Stack(buf, true)])
				os.Exit(3)
			}
			if d := time.Duration(int64(cpuTime()) - atomic.LoadInt64(&caseStart)); d > maxCaseCPU {
				fmt.Fprintf(os.Stderr, "hang: a case has used %v of processor time\n", d)
				os.Exit(3)
			}
			if r := rss(); r > maxRSS {
				fmt.Fprintf(os.Stderr, "memory: %d MB\n", r>>20)
				os.Exit(4)
			}
		}
	}()
	one := func(i int) {
		jf.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
		atomic.StoreInt64(&caseStart, int64(cpuTime()))
		t.runCase(i)
		if d := time.Duration(int64(cpuTime()) - atomic.LoadInt64(&caseStart)); d > t.slowest {
			t.slowest, t.slowIdx = d, i
		}
	}
	if len(cases) > 0 {
		for _, i := range cases {
			one(i)
		}
	} else {
		if start == 0 && p.Pinned != nil {
			one(-1)
		}
		limit := time.Now().Add(maxWall(tier))
		for i := start; i < n; i += stride {
			if t.nViol >= 3 {
				break
			}
			if time.Now().After(limit) {
				t.EventN("cases left out at the time limit", (n-i+stride-1)/stride)
				break
			}
			one(i)
		}
	}
	m := message{Kind: "done", Evals: t.Evals, Skipped: t.Skipped, Events: t.Events, Samples: t.samples, Slowest: t.slowest, SlowIdx: t.slowIdx}
	for s := range t.sigs {
		m.Sigs = append(m.Sigs, s)
	}
	t.send(m)
}

type replayFile struct {
	Property string
	Tier     string
	Seed     int64
	Index    int
	Detail   string
}

func main() {
	args := os.Args[1:]
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "usage: ocmon run PROP TIER SEED [BINARY] | worker ... | replay FILE | case PROP SEED INDEX")
		os.Exit(2)
	}
	switch args[0] {
	case "run":
		seed, _ := strconv.ParseInt(args[3], 10, 64)
		os.Exit(drive(args[1], args[2], seed))
	case "worker":
		p := props[args[1]]
		seed, _ := strconv.ParseInt(args[3], 10, 64)
		stride, _ := strconv.Atoi(args[4])
		start, _ := strconv.Atoi(args[5])
		n, _ := strconv.Atoi(args[6])
		var only []int
		if len(args) > 8 {
			i, _ := strconv.Atoi(args[8])
			only = []int{i}
		}
		worker(p, args[2], seed, only, stride, start, n, args[7])
	case "replay":
		b, err := os.ReadFile(args[1])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var r replayFile
		json.Unmarshal(b, &r)
		fmt.Println("recorded:", r.Detail)
		single(r.Property, r.Tier, r.Seed, r.Index)
	case "case":
		seed, _ := strconv.ParseInt(args[2], 10, 64)
		i, _ := strconv.Atoi(args[3])
		single(args[1], "quick", seed, i)
	case "trace":
		// prints every query before it runs
		traceQueries = true
		seed, _ := strconv.ParseInt(args[2], 10, 64)
		i, _ := strconv.Atoi(args[3])
		single(args[1], "quick", seed, i)
	case "states":
		// prints the state of the generator after each case, which must
		// be the same in every process
		p := props[args[1]]
		n, _ := strconv.Atoi(args[3])
		seed, _ := strconv.ParseInt(args[2], 10, 64)
		t := &T{prop: p, seed: seed, tier: "quick", Events: map[string]int{}, out: bufio.NewWriter(io.Discard), known: knownFindings()}
		for i := 0; i < n; i++ {
			t.sigs = map[uint64]bool{}
			t.runCase(i)
			var x uint64
			for k := range t.sigs {
				x ^= k
			}
			fmt.Println(i, t.rng.Int63(), len(t.sigs), x)
		}
	case "cold":
		seed, _ := strconv.ParseInt(args[1], 10, 64)
		coldStart(seed)
	case "grammar":
		sc := bufio.NewScanner(os.Stdin)
		for sc.Scan() {
			a, _ := cypherGrammar.isQuery(sc.Text())
			toks, _ := cypherGrammar.lex(sc.Text())
			_, err := oc.Parse(sc.Text())
			fmt.Println(a, err == nil, sc.Text(), toks)
		}
	case "list":
		ids := make([]string, 0)
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, props[id].Quick, props[id].Thorough, props[id].Race)
		}
	}
}

func single(prop, tier string, seed int64, index int) {
	p := props[prop]
	tmp, _ := os.CreateTemp("", "ocmon")
	defer os.Remove(tmp.Name())
	worker(p, tier, seed, []int{index}, 1, 0, 0, tmp.Name())
}

func drive(id, tier string, seed int64) int {
	start := time.Now()
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", id)
		return 2
	}
	n := p.Quick
	if tier == "thorough" {
		n = p.Thorough
	}
	procs := p.Procs
	if procs == 0 {
		procs = runtime.NumCPU()
		if procs > 8 {
			procs = 8
		}
	}
	dir, err := os.MkdirTemp("", "ocmon-"+id)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	type result struct {
		msgs    []message
		stderr  string
		journal int
		err     error
		done    bool
	}
	results := make([]result, procs)
	doneCh := make(chan int, procs)
	self, _ := os.Executable()
	for w := 0; w < procs; w++ {
		go func(w int) {
			j := filepath.Join(dir, "j"+strconv.Itoa(w))
			cmd := exec.Command(self, "worker", id, tier, strconv.FormatInt(seed, 10), strconv.Itoa(procs), strconv.Itoa(w), strconv.Itoa(n), j)
			var se bytes.Buffer
			cmd.Stderr = &tailBuffer{b: &se}
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
			so, _ := cmd.StdoutPipe()
			r := &results[w]
			if err := cmd.Start(); err != nil {
				r.err = err
				doneCh <- w
				return
			}
			sc := bufio.NewScanner(so)
			sc.Buffer(make([]byte, 1<<20), 1<<28)
			for sc.Scan() {
				var m message
				if json.Unmarshal(sc.Bytes(), &m) == nil && m.Kind != "" {
					r.msgs = append(r.msgs, m)
					if m.Kind == "done" {
						r.done = true
					}
				}
			}
			r.err = cmd.Wait()
			r.stderr = se.String()
			b, _ := os.ReadFile(j)
			r.journal, _ = strconv.Atoi(strings.TrimSpace(string(b)))
			doneCh <- w
		}(w)
	}
	for range results {
		<-doneCh
	}
	ev := map[string]int{}
	sigs := map[uint64]bool{}
	evals, skipped := 0, 0
	var samples []string
	var slowest time.Duration
	slowIdx := 0
	type viol struct {
		index  int
		detail string
	}
	var viols []viol
	known := map[string]string{}
	broken := false
	for w := range results {
		r := &results[w]
		for _, m := range r.msgs {
			switch m.Kind {
			case "violation":
				viols = append(viols, viol{m.Index, m.Detail})
			case "known":
				known[m.Key] = m.Detail
			case "done":
				evals += m.Evals
				skipped += m.Skipped
				for k, v := range m.Events {
					ev[k] += v
				}
				for _, s := range m.Sigs {
					sigs[s] = true
				}
				samples = append(samples, m.Samples...)
				if m.Slowest > slowest {
					slowest, slowIdx = m.Slowest, m.SlowIdx
				}
			}
		}
		if !r.done || r.err != nil {
			code := -1
			if ee, ok := r.err.(*exec.ExitError); ok {
				code = ee.ExitCode()
			}
			if code == 7 {
				fmt.Fprintln(os.Stderr, r.stderr)
				broken = true
				continue
			}
			what := "the process crashed"
			switch code {
			case 3:
				what = "the case does not end"
			case 4:
				what = "the case uses too much memory"
			case 66:
				what = "data race"
			}
			viols = append(viols, viol{r.journal, what + ": " + r.stderr})
		}
	}
	keys := make([]string, 0)
	for k := range known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, k, oneLine(known[k]))
	}
	if len(samples) > 8 {
		step := len(samples) / 8
		var s []string
		for i := 0; i < len(samples) && len(s) < 8; i += step {
			s = append(s, samples[i])
		}
		samples = s
	}
	level := "exploration"
	evidence := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": level,
		"coverage": map[string]interface{}{
			"evaluations":         evals,
			"distinct_nontrivial": len(sigs),
			"rule":                p.Rule,
			"samples":             samples,
			"discarded_cases":     skipped,
			"cases":               n,
			"observed_events":     ev,
			"slowest_case":        map[string]interface{}{"index": slowIdx, "cpu_s": slowest.Seconds()},
			"known_findings_seen": keys,
		},
		"wall_s":     time.Since(start).Seconds(),
		"violations": len(viols),
	}
	b, _ := json.MarshalIndent(evidence, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if broken {
		return 2
	}
	sort.SliceStable(viols, func(i, j int) bool { return viols[i].index < viols[j].index })
	for i, v := range viols {
		if i >= 5 {
			fmt.Printf("... and %d more\n", len(viols)-i)
			break
		}
		rdir := filepath.Join(verifDir, "build", "replay")
		os.MkdirAll(rdir, 0755)
		f := filepath.Join(rdir, fmt.Sprintf("%s-%d-%d.json", id, seed, v.index))
		rb, _ := json.MarshalIndent(replayFile{id, tier, seed, v.index, v.detail}, "", " ")
		os.WriteFile(f, rb, 0644)
		d := v.detail
		if len(d) > 3000 {
			d = d[:3000] + "..."
		}
		fmt.Println(strings.ToValidUTF8(d, "?"))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
	}
	fmt.Printf("%s %s seed=%d: %d executions judged, %d distinct, %d discarded, %d violations, %.1fs\n", id, tier, seed, evals, len(sigs), skipped, len(viols), time.Since(start).Seconds())
	if len(viols) > 0 {
		return 1
	}
	return 0
}

func oneLine(s string) string {
	s = strings.ReplaceAll(s, "\n", " ")
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// tailBuffer keeps the first part of the error output
type tailBuffer struct{ b *bytes.Buffer }

func (t *tailBuffer) Write(p []byte) (int, error) {
	if room := 6000 - t.b.Len(); room > 0 {
		if len(p) > room {
			t.b.Write(p[:room])
		} else {
			t.b.Write(p)
		}
	}
	return len(p), nil
}
