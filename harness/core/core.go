// Package core runs generated checks: it draws a plan with rapid, executes it,
// keeps statistics, minimises failures and records them as replay files.
package core

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// Result is the verdict of one executed plan.
type Result struct {
	Fail       string   // non-empty: the property was violated
	Sig        string   // root cause signature, matched against known findings
	Labels     []string // classification of the case
	NonTrivial bool
}

// Part is one executable check of a property.
type Part interface {
	name() string
	run(r *Runner)
	replay(r *Runner, plan json.RawMessage) Result
}

// Check is a generated check over plans of type P.
type Check[P any] struct {
	Name  string                   // part name, unique within the property
	Gen   func(t *rapid.T) P       // draws a plan
	Exec  func(x *Ctx, p P) Result // executes it
	Rule  string                   // what makes a case non-trivial
	Cases [2]int                   // cases over all workers: quick, thorough
	Pure  bool                     // no goroutines: a panic is recoverable, no plan file needed
}

// Ctx is handed to Exec.
type Ctx struct {
	T      *testing.T
	Replay bool
}

func (c Check[P]) name() string { return c.Name }

var registry = map[string][]Part{}
var rules = map[string]map[string]string{}

// Register adds a part to a property.
func Register[P any](id string, c Check[P]) {
	registry[id] = append(registry[id], c)
	if rules[id] == nil {
		rules[id] = map[string]string{}
	}
	rules[id][c.Name] = c.Rule
}

// Failure is a recorded violation.
type Failure struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Fail     string          `json:"fail"`
	Sig      string          `json:"sig,omitempty"`
	Plan     json.RawMessage `json:"plan"`
	Harness  bool            `json:"harness,omitempty"`
}

// PartStats are the statistics of one part in one worker.
type PartStats struct {
	Evaluations int                        `json:"evaluations"`
	NonTrivial  int                        `json:"nontrivial"`
	Hashes      []string                   `json:"hashes"` // of distinct non-trivial plans
	Labels      map[string]int             `json:"labels"`
	Samples     []json.RawMessage          `json:"samples"`
	Rule        string                     `json:"rule"`
	Known       map[string]int             `json:"known"`
	KnownSample map[string]json.RawMessage `json:"known_sample"`
	Truncated   bool                       `json:"truncated"` // stopped by the time budget
	Corpus      int                        `json:"corpus"`
}

// Output is what a worker writes.
type Output struct {
	Parts    map[string]*PartStats `json:"parts"`
	Failures []Failure             `json:"failures"`
	Done     bool                  `json:"done"`
}

// Runner executes the parts of one property in one worker.
type Runner struct {
	t        *testing.T
	id       string
	tier     int
	workers  int
	scale    float64
	deadline time.Time
	outPath  string
	curPath  string
	known    map[string]bool
	out      Output
	mu       sync.Mutex
	best     *Failure

	caseNo  atomic.Int64
	curPart string
	curPlan []byte
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// Main is the body of the only test function.
func Main(t *testing.T) {
	id := os.Getenv("VERIF_ID")
	if id == "" {
		t.Skip("VERIF_ID not set")
	}
	parts := registry[id]
	if len(parts) == 0 {
		t.Fatalf("HARNESS: no parts registered for %q", id)
	}
	r := &Runner{t: t, id: id, outPath: os.Getenv("VERIF_OUT"), curPath: os.Getenv("VERIF_CUR"),
		known: map[string]bool{}, workers: envInt("VERIF_WORKERS", 1)}
	if os.Getenv("VERIF_TIER") == "thorough" {
		r.tier = 1
	}
	r.scale, _ = strconv.ParseFloat(env("VERIF_SCALE", "1"), 64)
	r.deadline = time.Now().Add(time.Duration(envInt("VERIF_BUDGET", 240)) * time.Second)
	for _, s := range strings.Split(os.Getenv("VERIF_KNOWN"), "\n") {
		if s != "" {
			r.known[s] = true
		}
	}
	r.out.Parts = map[string]*PartStats{}
	go r.watchdog()
	go r.watchMemory()
	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		r.replayFile(f, parts, envInt("VERIF_REPEAT", 1))
		r.finish()
		return
	}
	if dir := os.Getenv("VERIF_CORPUS"); dir != "" {
		files, _ := filepath.Glob(filepath.Join(dir, "*.json"))
		sort.Strings(files)
		for _, f := range files {
			r.replayFile(f, parts, 1)
		}
	}
	only := os.Getenv("VERIF_PART")
	for _, p := range parts {
		if only != "" && only != p.name() {
			continue
		}
		if len(r.out.Failures) > 0 {
			break
		}
		p.run(r)
	}
	r.finish()
}

func (r *Runner) finish() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.out.Done = true
	r.write()
}

func (r *Runner) write() {
	if r.outPath == "" {
		for n, p := range r.out.Parts {
			q := *p
			q.Hashes, q.Samples = nil, nil
			b, _ := json.Marshal(q)
			fmt.Printf("%s: distinct=%d %s\n", n, len(p.Hashes), b)
		}
		for _, f := range r.out.Failures {
			fmt.Printf("FAIL %s: %s\nplan: %s\n", f.Part, f.Fail, f.Plan)
		}
		return
	}
	b, err := json.Marshal(r.out)
	if err == nil {
		tmp := r.outPath + ".tmp"
		if err = os.WriteFile(tmp, b, 0o644); err == nil {
			err = os.Rename(tmp, r.outPath)
		}
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS:", err)
	}
}

func (r *Runner) stats(name string) *PartStats {
	p := r.out.Parts[name]
	if p == nil {
		p = &PartStats{Labels: map[string]int{}, Known: map[string]int{}, KnownSample: map[string]json.RawMessage{}, Rule: rules[r.id][name]}
		r.out.Parts[name] = p
	}
	return p
}

func (r *Runner) replayFile(f string, parts []Part, repeat int) {
	b, err := os.ReadFile(f)
	if err != nil {
		r.t.Fatalf("HARNESS: %v", err)
	}
	var fl Failure
	if err := json.Unmarshal(b, &fl); err != nil {
		r.t.Fatalf("HARNESS: %s: %v", f, err)
	}
	for _, p := range parts {
		if p.name() != fl.Part {
			continue
		}
		r.stats(fl.Part).Corpus++
		for i := 0; i < repeat; i++ {
			res := p.replay(r, fl.Plan)
			if os.Getenv("VERIF_VERBOSE") != "" {
				fmt.Printf("replay %s: fail=%q sig=%q labels=%v\n", f, res.Fail, res.Sig, res.Labels)
			}
			if res.Fail != "" && !r.known[res.Sig] {
				r.mu.Lock()
				r.out.Failures = append(r.out.Failures, Failure{Property: r.id, Part: fl.Part, Fail: res.Fail, Sig: res.Sig,
					Plan: fl.Plan, Harness: strings.HasPrefix(res.Fail, "HARNESS")})
				r.write()
				r.mu.Unlock()
				return
			}
			if res.Fail != "" {
				r.stats(fl.Part).Known[res.Sig]++
			}
		}
	}
}

func (c Check[P]) replay(r *Runner, plan json.RawMessage) Result {
	var p P
	if err := json.Unmarshal(plan, &p); err != nil {
		return Result{Fail: "HARNESS: bad plan: " + err.Error()}
	}
	return c.exec1(r, p, plan, true)
}

// exec1 runs one plan with panic capture and bookkeeping.
func (c Check[P]) exec1(r *Runner, p P, js []byte, replay bool) (res Result) {
	r.mu.Lock()
	r.curPart, r.curPlan = c.Name, js
	r.mu.Unlock()
	r.caseNo.Add(1)
	if !c.Pure && r.curPath != "" {
		b, _ := json.Marshal(Failure{Property: r.id, Part: c.Name, Plan: js})
		_ = os.WriteFile(r.curPath, b, 0o644)
	}
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			res = Result{Fail: fmt.Sprintf("panic: %v\n%s", e, st)}
			if !strings.Contains(st, "go-stomp/stomp/v3") {
				res.Fail = "HARNESS: " + res.Fail
			}
		}
	}()
	return c.Exec(&Ctx{T: r.t, Replay: replay}, p)
}

func hash(part string, js []byte) string {
	h := sha256.Sum256(append([]byte(part+"\x00"), js...))
	return strconv.FormatUint(binary.BigEndian.Uint64(h[:8]), 36)
}

func (c Check[P]) run(r *Runner) {
	n := c.Cases[r.tier]
	if n == 0 {
		n = c.Cases[0] * 20
	}
	n = int(float64(n)*r.scale)/r.workers + 1
	st := r.stats(c.Name)
	seen := map[string]bool{}
	setRapidChecks(n)
	r.best = nil
	r.t.Run(c.Name, func(t *testing.T) {
		rapid.Check(t, func(rt *rapid.T) {
			if r.best == nil && time.Now().After(r.deadline) {
				st.Truncated = true
				return
			}
			p := c.Gen(rt)
			js, err := json.Marshal(p)
			if err != nil {
				panic("HARNESS: " + err.Error())
			}
			// what is executed is exactly what a replay file would hold
			var q P
			if err := json.Unmarshal(js, &q); err != nil {
				panic("HARNESS: " + err.Error())
			}
			res := c.exec1(r, q, js, false)
			if r.best == nil {
				st.Evaluations++
				for _, l := range res.Labels {
					st.Labels[l]++
				}
				if res.NonTrivial {
					st.NonTrivial++
					h := hash(c.Name, js)
					if !seen[h] && len(seen) < 400000 {
						seen[h] = true
						st.Hashes = append(st.Hashes, h)
						if len(st.Samples) < 4 && len(js) < 3000 && (len(st.Samples) < 2 || len(seen)%97 == 0) {
							st.Samples = append(st.Samples, js)
						}
					}
				}
			}
			if res.Fail == "" {
				return
			}
			if res.Sig != "" && r.known[res.Sig] {
				st.Known[res.Sig]++
				if k := st.KnownSample[res.Sig]; k == nil || len(js) < len(k) {
					st.KnownSample[res.Sig] = js
				}
				return
			}
			if r.best == nil || len(js) <= len(r.best.Plan) {
				r.best = &Failure{Property: r.id, Part: c.Name, Fail: res.Fail, Sig: res.Sig, Plan: js,
					Harness: strings.HasPrefix(res.Fail, "HARNESS")}
				r.mu.Lock()
				r.out.Failures = []Failure{*r.best}
				r.write()
				r.mu.Unlock()
			}
			// one constant message: rapid shrinks towards the smallest plan with any violation
			rt.Fatalf("violation")
		})
	})
}

// watchdog runs outside every bubble, on the real clock. It reports a case that burns
// CPU without end, a case in which every goroutine is blocked for good, and a memory runaway.
func (r *Runner) watchdog() {
	last := int64(-1)
	var cpu0 float64
	var dump0 string
	still := 0
	for {
		time.Sleep(time.Second)
		n := r.caseNo.Load()
		if n != last {
			last, cpu0, dump0, still = n, cpuSeconds(), "", 0
			continue
		}
		if n == 0 {
			continue
		}
		still++
		if d := cpuSeconds() - cpu0; d > 90 {
			r.abort(fmt.Sprintf("one case used more than %.0f s of CPU without completing (livelock)\n%s", d, stacks()))
		}
		if still%10 == 0 {
			d := stacks()
			if allBlocked(d) && strip(d) == dump0 {
				r.abort("every goroutine is blocked for good (deadlock)\n" + d)
			}
			dump0 = strip(d)
			if !allBlocked(d) {
				dump0 = ""
			}
		}
	}
}

// watchMemory ends a case that uses memory without bound, before all workers together use up the machine's.
func (r *Runner) watchMemory() {
	const limit = 5 << 29
	last := int64(-1)
	for {
		time.Sleep(100 * time.Millisecond)
		n := r.caseNo.Load()
		if n > 0 && n == last && rss() > limit {
			r.abort("one case made the process use more than 2.5 GiB of memory")
		}
		last = n
	}
}

func strip(d string) string {
	var b strings.Builder
	for _, l := range strings.Split(d, "\n") {
		if strings.HasPrefix(l, "goroutine ") {
			l = strings.SplitN(l, "[", 2)[0]
		}
		b.WriteString(l + "\n")
	}
	return b.String()
}

func stacks() string {
	buf := make([]byte, 4<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// allBlocked: no goroutine but the watchdog could run.
func allBlocked(d string) bool {
	running := 0
	for _, l := range strings.Split(d, "\n") {
		if strings.HasPrefix(l, "goroutine ") {
			i, j := strings.IndexByte(l, '['), strings.LastIndexByte(l, ']')
			if i < 0 || j < i {
				continue
			}
			s := l[i+1 : j]
			if strings.HasPrefix(s, "runn") || strings.HasPrefix(s, "sleep") && !strings.Contains(s, "synctest") ||
				strings.HasPrefix(s, "IO wait") || strings.HasPrefix(s, "syscall") {
				running++
			}
		}
	}
	return running <= 1 && strings.Contains(d, "go-stomp/stomp/v3")
}

func (r *Runner) abort(why string) {
	r.mu.Lock()
	r.out.Failures = append(r.out.Failures, Failure{Property: r.id, Part: r.curPart, Fail: why, Plan: r.curPlan})
	r.write()
	os.Exit(4)
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

// Bubble runs f inside a synctest bubble. Goroutines that stay blocked when f returns are
// abandoned; leaked tells that there were some.
func (x *Ctx) Bubble(f func()) (leaked bool) {
	var pv any
	var st string
	defer func() {
		if e := recover(); e != nil {
			if s := fmt.Sprint(e); strings.Contains(s, "deadlock: main bubble goroutine has exited but blocked goroutines remain") {
				leaked = true
			} else if pv == nil {
				panic(e)
			}
		}
		if pv != nil {
			if strings.Contains(st, "go-stomp/stomp/v3") {
				panic(fmt.Sprintf("go-stomp/stomp/v3 %v\n%s", pv, st))
			}
			panic(fmt.Sprintf("%v\n%s", pv, st))
		}
	}()
	synctest.Test(x.T, func(*testing.T) {
		defer func() {
			if pv = recover(); pv != nil {
				st = string(debug.Stack())
			}
		}()
		f()
	})
	return
}
