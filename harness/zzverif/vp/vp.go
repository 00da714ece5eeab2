// Package vp is the property runner shared by all harness packages: it drives
// rapid generators, journals every case, records what was covered, confirms
// and writes out minimal failing cases, and replays them.
package vp

import (
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// R collects what one evaluation of one case observed.
type R struct {
	nontrivial bool
	labels     []string
	sample     string
	known      string
}

// NonTrivial marks the case as exercising the property by its stated rule.
func (r *R) NonTrivial() { r.nontrivial = true }

// Label counts a class of cases for the evidence.
func (r *R) Label(s string) { r.labels = append(r.labels, s) }

// Labelled says how often a label was given.
func (r *R) Labelled(s string) int {
	n := 0
	for _, l := range r.labels {
		if l == s {
			n++
		}
	}
	return n
}

// Sample gives a readable form of the case.
func (r *R) Sample(s string) {
	r.sample = s
}

// Tier returns "quick" or "thorough".
func Tier() string {
	if os.Getenv("VP_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

// Thorough tells whether this is a thorough run.
func Thorough() bool { return Tier() == "thorough" }

type sub struct {
	prop, name      string
	quick, thorough int
	rule            string
	rerun           int // how often an apparent failure is re-run to confirm
	rapidBody       func(s *sub, st *state) func(*rapid.T)
	replay          func(raw json.RawMessage, r *R) error
}

var subs []*sub

// Opt customises a sub-check.
type Opt func(*sub)

// Flaky marks checks that involve real processes and time: an apparent failure
// counts only if it happens again when the same case is re-run.
func Flaky() Opt { return func(s *sub) { s.rerun = 2 } }

// Add registers a sub-check of a property: a generator of cases, and a
// function which evaluates the case against the oracle and returns an error
// exactly if the property does not hold for it. Cases must survive a JSON
// round trip.
func Add[C any](prop, name string, quick, thorough int, gen func(*rapid.T) C, run func(C, *R) error, opts ...Opt) {
	s := &sub{prop: prop, name: name, quick: quick, thorough: thorough, rerun: 0}
	for _, o := range opts {
		o(s)
	}
	safe := func(c C, r *R) (err error) {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("panic: %v\n%s", p, trimStack(debug.Stack()))
			}
		}()
		return run(c, r)
	}
	s.replay = func(raw json.RawMessage, r *R) error {
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			return fmt.Errorf("bad replay case: %v", err)
		}
		return safe(c, r)
	}
	s.rapidBody = func(s *sub, st *state) func(*rapid.T) {
		return func(t *rapid.T) {
			if st.overBudget() {
				return
			}
			c := gen(t)
			raw, err := json.Marshal(c)
			if err != nil {
				panic("case does not marshal: " + err.Error())
			}
			if st.failing && st.slow {
				if string(raw) == string(st.lastRaw) {
					t.Fatalf("failed")
				}
				return // each try takes too long
			}
			// The case that is evaluated is the one that a replay would see.
			var c2 C
			if err := json.Unmarshal(raw, &c2); err != nil {
				panic("case does not unmarshal: " + err.Error())
			}
			r := &R{}
			st.begin(s, raw)
			err = safe(c2, r)
			st.end(s, raw, r, err)
			if err != nil {
				t.Fatalf("failed")
			}
		}
	}
	subs = append(subs, s)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	out := []string{}
	for _, l := range lines {
		if strings.Contains(l, "alda.io/client/") && !strings.Contains(l, "zzverif") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Violation is one confirmed failing case.
type Violation struct {
	Sub   string          `json:"sub"`
	Case  json.RawMessage `json:"case"`
	Error string          `json:"error"`
	Show  string          `json:"show,omitempty"`
	Kind  string          `json:"kind"`
}

// SubResult is what one worker covered of one sub-check.
type SubResult struct {
	Sub         string         `json:"sub"`
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Hashes      []string       `json:"hashes"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	WallS       float64        `json:"wall_s"`
	Truncated   bool           `json:"truncated,omitempty"`
	Unconfirmed []string       `json:"unconfirmed,omitempty"`
}

// Result is what a worker reports.
type Result struct {
	Prop       string       `json:"prop"`
	Done       bool         `json:"done"`
	Subs       []*SubResult `json:"subs"`
	Violations []Violation  `json:"violations"`
	Regress    int          `json:"regress"`
}

type state struct {
	mu       sync.Mutex
	res      *Result
	cur      *SubResult
	hashes   map[string]bool
	lastRaw  json.RawMessage
	lastErr  string
	lastShow string
	failing  bool
	slow     bool // shrinking would take too long
	deadline time.Time
	curRaw   json.RawMessage
	curSub   *sub
	curStart time.Time
	curCPU   time.Duration
	active   bool
	journal  *os.File
	out      string
}

func (st *state) overBudget() bool {
	if st.failing {
		return false
	}
	if time.Now().After(st.deadline) {
		st.cur.Truncated = true
		return true
	}
	return false
}

func cpu() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func (st *state) begin(s *sub, raw json.RawMessage) {
	st.mu.Lock()
	st.curRaw, st.curSub, st.curStart, st.curCPU, st.active = raw, s, time.Now(), cpu(), true
	st.mu.Unlock()
	if st.journal != nil {
		b, _ := json.Marshal(map[string]interface{}{"prop": s.prop, "sub": s.name, "case": raw})
		st.journal.WriteAt(b, 0)
		st.journal.Truncate(int64(len(b)))
	}
}

func (st *state) end(s *sub, raw json.RawMessage, r *R, err error) {
	st.mu.Lock()
	st.active = false
	st.mu.Unlock()
	if err != nil {
		if !st.failing && time.Since(st.curStart) > 15*time.Second {
			st.slow = true
		}
		st.failing = true
		st.lastRaw = append(json.RawMessage{}, raw...)
		st.lastErr = err.Error()
		st.lastShow = r.sample
		return
	}
	if st.failing {
		return // shrinking
	}
	c := st.cur
	c.Evaluations++
	for _, l := range r.labels {
		c.Labels[l]++
	}
	if r.nontrivial {
		c.NonTrivial++
		h := sha1.Sum(raw)
		k := hex.EncodeToString(h[:6])
		if !st.hashes[k] && len(st.hashes) < 300000 {
			st.hashes[k] = true
		}
		if n := c.NonTrivial; len(c.Samples) < 3 && (n == 1 || n == 50 || n == 500 || n == 12) {
			smp := r.sample
			if smp == "" {
				smp = string(raw)
			}
			if len(smp) > 1500 {
				smp = smp[:1500] + "…"
			}
			c.Samples = append(c.Samples, smp)
		}
	}
}

func (st *state) save() {
	b, _ := json.MarshalIndent(st.res, "", " ")
	tmp := st.out + ".tmp"
	if err := os.WriteFile(tmp, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "vp: cannot write result:", err)
		os.Exit(7)
	}
	os.Rename(tmp, st.out)
}

func (st *state) watchdog() {
	maxCPU := 40 * time.Second
	if v := os.Getenv("VP_MAXCPU"); v != "" {
		if n, err := strconv.Atoi(v); err == nil {
			maxCPU = time.Duration(n) * time.Second
		}
	}
	for {
		time.Sleep(500 * time.Millisecond)
		st.mu.Lock()
		if st.active {
			used := cpu() - st.curCPU
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			why := ""
			if used > maxCPU && time.Since(st.curStart) > maxCPU/4 {
				why = fmt.Sprintf("evaluating this case used %v of CPU time without finishing", used.Round(time.Second))
			}
			if ms.HeapAlloc > 3<<30 {
				why = fmt.Sprintf("evaluating this case used %d MB of memory without finishing", ms.HeapAlloc>>20)
			}
			if why != "" {
				st.res.Violations = append(st.res.Violations, Violation{
					Sub: st.curSub.name, Case: st.curRaw, Error: why, Kind: "hang",
				})
				st.save()
				os.Exit(0)
			}
		}
		st.mu.Unlock()
	}
}

func seedFor(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	s := h.Sum64()
	if s == 0 {
		s = 1
	}
	return s
}

// Replay is the format of replay and regression files.
type Replay struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Error    string          `json:"error,omitempty"`
	Show     string          `json:"show,omitempty"`
	Kind     string          `json:"kind,omitempty"`
	Case     json.RawMessage `json:"case"`
}

func find(prop, name string) *sub {
	for _, s := range subs {
		if s.prop == prop && s.name == name {
			return s
		}
	}
	return nil
}

// Main runs the checks that the environment asks for.
func Main(t *testing.T) {
	debug.SetMaxStack(256 << 20)
	prop := os.Getenv("VP_PROP")
	if prop == "" {
		t.Skip("VP_PROP not set")
	}
	out := os.Getenv("VP_OUT")
	st := &state{res: &Result{Prop: prop, Subs: []*SubResult{}, Violations: []Violation{}}, out: out, hashes: map[string]bool{}}
	st.deadline = time.Now().Add(1000 * time.Hour)
	if j := os.Getenv("VP_JOURNAL"); j != "" {
		f, err := os.Create(j)
		if err != nil {
			t.Fatal(err)
		}
		st.journal = f
	}
	st.cur = &SubResult{Labels: map[string]int{}}
	go st.watchdog()

	if rp := os.Getenv("VP_REPLAY"); rp != "" {
		b, err := os.ReadFile(rp)
		if err != nil {
			t.Fatal(err)
		}
		var r Replay
		if err := json.Unmarshal(b, &r); err != nil {
			t.Fatal(err)
		}
		s := find(r.Property, r.Sub)
		if s == nil {
			t.Fatalf("no sub-check %s/%s", r.Property, r.Sub)
		}
		n := 1 + s.rerun
		for i := 0; i < n; i++ {
			rr := &R{}
			st.begin(s, r.Case)
			err := s.replay(r.Case, rr)
			st.mu.Lock()
			st.active = false
			st.mu.Unlock()
			if err != nil {
				st.res.Violations = append(st.res.Violations, Violation{Sub: s.name, Case: r.Case, Error: err.Error(), Show: rr.sample, Kind: "failure"})
				break
			}
		}
		st.res.Done = true
		st.save()
		return
	}

	worker := os.Getenv("VP_WORKER")
	workers, _ := strconv.Atoi(os.Getenv("VP_WORKERS"))
	if workers < 1 {
		workers = 1
	}
	seed := os.Getenv("VP_SEED")
	budget, _ := strconv.Atoi(os.Getenv("VP_BUDGET"))
	if budget <= 0 {
		budget = 200
	}
	only := os.Getenv("VP_SUB")
	scale := 1.0
	if v, err := strconv.ParseFloat(os.Getenv("VP_SCALE"), 64); err == nil && v > 0 {
		scale = v
	}

	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "20s")

	if dir := os.Getenv("VP_REGRESS"); dir != "" && worker == "0" {
		files, _ := filepath.Glob(filepath.Join(dir, "*.json"))
		sort.Strings(files)
		for _, f := range files {
			b, err := os.ReadFile(f)
			if err != nil {
				t.Fatal(err)
			}
			var r Replay
			if err := json.Unmarshal(b, &r); err != nil {
				t.Fatalf("%s: %v", f, err)
			}
			s := find(prop, r.Sub)
			if s == nil {
				t.Fatalf("%s: no sub-check %s", f, r.Sub)
			}
			if only != "" && s.name != only {
				continue
			}
			st.res.Regress++
			fails := 0
			var lastErr error
			for i := 0; i <= s.rerun; i++ {
				rr := &R{}
				st.begin(s, r.Case)
				err := s.replay(r.Case, rr)
				st.mu.Lock()
				st.active = false
				st.mu.Unlock()
				if err == nil {
					break
				}
				fails++
				lastErr = err
			}
			if fails == s.rerun+1 {
				st.res.Violations = append(st.res.Violations, Violation{Sub: s.name, Case: r.Case, Error: lastErr.Error(), Kind: "regression " + filepath.Base(f)})
			}
		}
	}

	mine := []*sub{}
	for _, s := range subs {
		if s.prop == prop && (only == "" || only == s.name) {
			mine = append(mine, s)
		}
	}
	if len(mine) == 0 {
		t.Fatalf("no sub-checks for %s", prop)
	}
	start := time.Now()
	for i, s := range mine {
		n := s.quick
		if Thorough() {
			n = s.thorough
		}
		n = int(float64(n)*scale) / workers
		if n < 1 {
			n = 1
		}
		remaining := time.Duration(budget)*time.Second - time.Since(start)
		share := remaining / time.Duration(len(mine)-i)
		st.deadline = time.Now().Add(share)
		st.cur = &SubResult{Sub: s.name, Labels: map[string]int{}, Samples: []string{}}
		st.hashes = map[string]bool{}
		st.failing, st.slow = false, false
		st.lastRaw = nil
		st.res.Subs = append(st.res.Subs, st.cur)
		flag.Set("rapid.checks", strconv.Itoa(n))
		flag.Set("rapid.seed", strconv.FormatUint(seedFor(seed, worker, s.prop, s.name, Tier()), 10))
		t0 := time.Now()
		func() {
			done := make(chan bool)
			rec := &tbRec{}
			go func() {
				defer close(done)
				rapid.Check(rec, s.rapidBody(s, st))
			}()
			<-done
			if !rec.failed {
				return
			}
			if st.lastRaw == nil {
				fmt.Fprintf(os.Stderr, "vp: generator problem in %s/%s: %s\n", s.prop, s.name, rec.log)
				os.Exit(8)
			}
		}()
		st.cur.WallS = time.Since(t0).Seconds()
		for h := range st.hashes {
			st.cur.Hashes = append(st.cur.Hashes, h)
		}
		if st.lastRaw != nil {
			raw, msg, show := st.lastRaw, st.lastErr, st.lastShow
			again := 0
			tries := 20
			if s.rerun > 0 {
				tries = s.rerun
			}
			for i := 0; i < tries && again == 0; i++ {
				rr := &R{}
				st.begin(s, raw)
				if err := s.replay(raw, rr); err != nil {
					again++
					msg, show = err.Error(), rr.sample
				}
				st.mu.Lock()
				st.active = false
				st.mu.Unlock()
			}
			if again > 0 || s.rerun == 0 {
				kind := "failure"
				if again == 0 {
					kind = "failure (seen once, not on re-evaluation)"
				}
				st.res.Violations = append(st.res.Violations, Violation{Sub: s.name, Case: raw, Error: msg, Show: show, Kind: kind})
				st.save()
			} else {
				st.cur.Unconfirmed = append(st.cur.Unconfirmed, msg+" :: "+string(raw))
				fmt.Fprintf(os.Stderr, "vp: unconfirmed failure in %s/%s: %s\n%s\n", s.prop, s.name, msg, raw)
			}
		}
	}
	st.res.Done = true
	st.save()
}

// tbRec is the testing.TB that rapid reports to; verdicts are taken from the
// recorded cases, not from rapid's own report.
type tbRec struct {
	mu     sync.Mutex
	failed bool
	log    string
}

func (r *tbRec) Helper()                   {}
func (r *tbRec) Name() string              { return "vp" }
func (r *tbRec) Logf(f string, a ...any)   { r.add(fmt.Sprintf(f, a...)) }
func (r *tbRec) Log(a ...any)              { r.add(fmt.Sprint(a...)) }
func (r *tbRec) Skipf(f string, a ...any)  { runtime.Goexit() }
func (r *tbRec) Skip(a ...any)             { runtime.Goexit() }
func (r *tbRec) SkipNow()                  { runtime.Goexit() }
func (r *tbRec) Errorf(f string, a ...any) { r.failed = true; r.add(fmt.Sprintf(f, a...)) }
func (r *tbRec) Error(a ...any)            { r.failed = true; r.add(fmt.Sprint(a...)) }
func (r *tbRec) Fatalf(f string, a ...any) {
	r.failed = true
	r.add(fmt.Sprintf(f, a...))
	runtime.Goexit()
}
func (r *tbRec) Fatal(a ...any) { r.failed = true; r.add(fmt.Sprint(a...)); runtime.Goexit() }
func (r *tbRec) FailNow()       { r.failed = true; runtime.Goexit() }
func (r *tbRec) Fail()          { r.failed = true }
func (r *tbRec) Failed() bool   { return r.failed }
func (r *tbRec) add(s string) {
	r.mu.Lock()
	if len(r.log) < 20000 {
		r.log += s + "\n"
	}
	r.mu.Unlock()
}

// Infra ends the worker without a verdict.
func Infra(err error) {
	fmt.Fprintf(os.Stderr, "vp: %v\n", err)
	os.Exit(7)
}
