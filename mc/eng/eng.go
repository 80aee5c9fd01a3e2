// Package eng explores the executions of cases exhaustively up to a bound, spreads them over worker
// processes, confirms violations and writes evidence.
package eng

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/mc/vs"
)

// Case is one closed system: its executions under all decisions up to Bound are explored.
type Case struct {
	Key   string
	Opts  vs.Opts
	Bound int32 // bound on the summed cost of decisions
	Split bool  // explore the subtrees of this case in all workers
	Body  func()
	After func(x *vs.Exec) // checks after the execution, outside of the scheduler
	Limit int64            // most executions (0: none); a limit hit makes the run non-exhaustive
}

// Prop is a property with its cases.
type Prop struct {
	ID     string
	Level  string
	Rule   string
	Bounds func(tier string) string // what is enumerated
	Assume []string
	Gen    func(tier string, emit func(Case))
	Setup  func() // once per worker
	Sched  bool   // decided only under the scheduler
	// Budget in seconds of exploration, after which the rest is not explored.
	Quick, Thorough int
}

var props = map[string]*Prop{}

// Register adds a property.
func Register(p *Prop) {
	if p.Quick == 0 {
		p.Quick = 240
	}
	if p.Thorough == 0 {
		p.Thorough = 800
	}
	if p.Level == "" {
		p.Level = "model_checking"
	}
	props[p.ID] = p
}

// Violation is a confirmed violation.
type Violation struct {
	Property string   `json:"property"`
	Case     string   `json:"case"`
	Tier     string   `json:"tier"`
	Choices  []int32  `json:"choices"`
	What     []string `json:"what"`
	Log      []string `json:"log,omitempty"`
}

type stats struct {
	Cases, Execs, Nodes, Steps, Evals int64
	Diverged, Flaky, Limited          int64
	Skipped                           int64
	MaxPoints, MaxSteps               int64
	ByBound                           map[string]int64
	Samples                           []string
	Notes                             []string
	Deadline                          bool
	Violations                        []Violation
	Known                             []Violation
}

type worker struct {
	p        *Prop
	tier     string
	i, n     int
	only     string
	deadline time.Time
	st       stats
	outcomes map[uint64]struct{}
	states   map[uint64]struct{}
	prog     []byte // shared progress file (mmap)
	plain    bool
	maxViol  int
	seed     maphash.Seed
	sampleAt int64
}

var cur *worker

// Eval counts evaluations of the oracle inside a body.
func Eval(n int64) {
	if cur != nil {
		cur.st.Evals += n
	}
}

// Alive tells that a long execution makes progress.
func Alive() {
	if cur != nil && cur.prog != nil {
		n := binary.LittleEndian.Uint64(cur.prog)
		binary.LittleEndian.PutUint64(cur.prog, n+1)
	}
}

const maxSet = 4_000_000

func hash64(b []byte) uint64 { // FNV-1a
	h := uint64(14695981039346656037)
	for _, c := range b {
		h ^= uint64(c)
		h *= 1099511628211
	}
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	return h ^ h>>32
}

// State records a state of the system under test, for counting distinct ones.
func State(b []byte) {
	if cur != nil && len(cur.states) < maxSet {
		cur.states[hash64(b)] = struct{}{}
	}
}

// StateS is State.
func StateS(s string) { State([]byte(s)) }

// Outcome records the outcome of an evaluation, for counting distinct ones.
func Outcome(s string) {
	if cur != nil && len(cur.outcomes) < maxSet {
		cur.outcomes[hash64([]byte(s))] = struct{}{}
	}
}

// Sample keeps a case written out (a few per worker).
func Sample(format string, a ...any) {
	if cur == nil || len(cur.st.Samples) >= 3 {
		return
	}
	cur.sampleAt++
	if cur.sampleAt&(cur.sampleAt-1) == 0 { // at powers of two
		cur.st.Samples = append(cur.st.Samples, clip(fmt.Sprintf(format, a...), 400))
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Failf records a violation together with the log.
func Failf(format string, a ...any) { vs.Failf(format, a...) }

func (w *worker) run(c *Case, prefix []int32, logging bool) *vs.Exec {
	if w.prog != nil {
		n := binary.LittleEndian.Uint64(w.prog)
		binary.LittleEndian.PutUint64(w.prog, n+1)
	}
	var x *vs.Exec
	if w.plain {
		x = vs.RunPlain(60*time.Second, c.Body)
	} else {
		x = vs.Run(c.Opts, prefix, logging, c.Body)
	}
	if c.After != nil {
		c.After(x)
	}
	return x
}

func failed(x *vs.Exec) bool {
	return len(x.Fails) > 0 || x.Verdict != "" && x.Verdict != "diverged"
}

func choices(t []vs.Point, n int) []int32 {
	r := make([]int32, n)
	for i := range r {
		r[i] = t[i].Choice
	}
	return r
}

func (w *worker) account(c *Case, x *vs.Exec, from int) {
	w.st.Execs++
	w.st.Steps += x.Steps
	if x.Steps > w.st.MaxSteps {
		w.st.MaxSteps = x.Steps
	}
	if len(x.Trace) > from {
		w.st.Nodes += int64(len(x.Trace) - from)
	}
	w.st.Nodes++
	if int64(len(x.Trace)) > w.st.MaxPoints {
		w.st.MaxPoints = int64(len(x.Trace))
	}
	if x.Outcome != "" {
		Outcome(c.Key + "|" + x.Outcome)
	}
	if w.st.Execs&(w.st.Execs-1) == 0 && len(w.st.Samples) < 3 && x.Outcome != "" {
		w.st.Samples = append(w.st.Samples, clip(fmt.Sprintf("%s choices=%v -> %s", c.Key, choices(x.Trace, len(x.Trace)), x.Outcome), 400))
	}
}

func (w *worker) violation(c *Case, x *vs.Exec) {
	ch := choices(x.Trace, len(x.Trace))
	// the same decisions have to fail every time
	for k := 0; k < 5; k++ {
		y := w.run(c, ch, false)
		if !failed(y) {
			w.st.Flaky++
			w.note("not reproducible: %s choices=%v: %v %s", c.Key, ch, x.Fails, x.Verdict)
			return
		}
	}
	y := w.run(c, ch, true)
	// cut trailing default decisions
	n := len(ch)
	for n > 0 && ch[n-1] == 0 {
		n--
	}
	v := Violation{Property: w.p.ID, Case: c.Key, Tier: w.tier, Choices: ch[:n], Log: y.Events}
	if len(v.Log) > 400 {
		v.Log = append(v.Log[:400:400], "...")
	}
	v.What = append(v.What, x.Fails...)
	if x.Verdict != "" {
		v.What = append(v.What, x.Verdict+": "+x.Detail)
	}
	for i := range v.What {
		v.What[i] = clip(v.What[i], 3000)
	}
	if known(w.p.ID, c.Key) != "" {
		w.st.Known = append(w.st.Known, v)
		return
	}
	w.st.Violations = append(w.st.Violations, v)
}

func (w *worker) note(format string, a ...any) {
	if len(w.st.Notes) < 8 {
		w.st.Notes = append(w.st.Notes, clip(fmt.Sprintf(format, a...), 1000))
	}
}

type item struct {
	trace []vs.Point
	i     int32
	alt   int32
}

func (w *worker) stop() bool {
	if w.st.Deadline {
		return true
	}
	if time.Now().After(w.deadline) {
		w.st.Deadline = true
		return true
	}
	return len(w.st.Violations) >= w.maxViol
}

// explore runs all executions of the case up to its bound, by increasing bound.
func (w *worker) explore(c Case, part, parts int) {
	w.st.Cases++
	if w.plain && w.p.Sched {
		w.st.Skipped++
		return
	}
	if w.plain {
		x := w.run(&c, nil, false)
		w.account(&c, x, 0)
		if failed(x) {
			w.violation(&c, x)
		}
		return
	}
	bounds := []int32{}
	for b := int32(0); b < c.Bound; b++ {
		bounds = append(bounds, b)
	}
	bounds = append(bounds, c.Bound)
	execs := int64(0)
	for bi, b := range bounds {
		var stack []item
		first := true
		children := 0
		last := bi == len(bounds)-1
		for first || len(stack) > 0 {
			if w.stop() {
				return
			}
			var prefix []int32
			var it item
			if !first {
				it = stack[len(stack)-1]
				stack[len(stack)-1] = item{}
				stack = stack[:len(stack)-1]
				prefix = append(choices(it.trace, int(it.i)), it.alt)
			}
			x := w.run(&c, prefix, false)
			if x.Verdict == "diverged" || len(x.Trace) < len(prefix) || differs(x.Trace, it.trace, int(it.i)) {
				w.st.Diverged++
				w.note("diverged: %s %v", c.Key, prefix)
				first = false
				continue
			}
			if !first || part == 0 {
				w.account(&c, x, len(prefix))
				if failed(x) {
					w.violation(&c, x)
					if len(w.st.Known) > 0 && w.st.Known[len(w.st.Known)-1].Case == c.Key {
						return // a listed finding: its case is not explored further
					}
				}
			}
			from := len(prefix)
			for i := len(x.Trace) - 1; i >= from; i-- {
				p := x.Trace[i]
				if p.Before+p.Cost > b {
					continue
				}
				for alt := p.N - 1; alt >= 1; alt-- {
					if first && parts > 1 {
						children++
						if children%parts != part {
							continue
						}
					}
					stack = append(stack, item{x.Trace, int32(i), alt})
				}
			}
			first = false
			if last {
				execs++
				if c.Limit > 0 && execs >= c.Limit {
					w.st.Limited++
					w.note("limit of %d executions hit: %s", c.Limit, c.Key)
					return
				}
			}
		}
		if len(w.st.Violations) > 0 {
			return
		}
		_ = last
		if w.st.ByBound == nil {
			w.st.ByBound = map[string]int64{}
		}
		if last {
			w.st.ByBound[strconv.Itoa(int(b))]++
		}
	}
}

func differs(a, b []vs.Point, n int) bool {
	if len(a) < n {
		return true
	}
	for i := 0; i < n; i++ {
		if a[i].N != b[i].N || a[i].Kind != b[i].Kind || a[i].Choice != b[i].Choice {
			return true
		}
	}
	return false
}

func (w *worker) all() {
	k := 0
	seen := map[string]bool{}
	w.p.Gen(w.tier, func(c Case) {
		k++
		if w.only != "" {
			if c.Key != w.only {
				return
			}
		} else if !c.Split && k%w.n != w.i {
			return
		}
		if w.stop() {
			if !c.Split || w.i == 0 {
				w.st.Skipped++
			}
			return
		}
		if seen[c.Key] {
			panic("eng: two cases " + c.Key)
		}
		seen[c.Key] = true
		if w.prog != nil {
			n := copy(w.prog[16:], c.Key)
			binary.LittleEndian.PutUint64(w.prog[8:], uint64(n))
		}
		if c.Split && w.only == "" {
			w.explore(c, w.i, w.n)
		} else {
			w.explore(c, 0, 1)
		}
	})
}

type knownFinding struct{ prop, key, what string }

var knownList []knownFinding

// loadKnown reads the file of known findings: lines "finding: property=ID case=KEY what failed".
func loadKnown(path string) {
	f, err := os.Open(path)
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		parts := strings.SplitN(strings.TrimPrefix(l, "finding: property="), " ", 3)
		if len(parts) == 3 && strings.HasPrefix(parts[1], "case=") {
			knownList = append(knownList, knownFinding{parts[0], strings.TrimPrefix(parts[1], "case="), parts[2]})
		}
	}
}

func known(prop, key string) string {
	for _, k := range knownList {
		if k.prop == prop && k.key == strings.ReplaceAll(key, " ", "_") {
			return k.what
		}
	}
	return ""
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Main is the program.
func Main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: mc check|worker|replay ...")
		os.Exit(2)
	}
	verif := env("VERIF_DIR", "/verif")
	loadKnown(filepath.Join(verif, "known_findings.txt"))
	switch os.Args[1] {
	case "check":
		check(os.Args[2], env("VERIF_TIER", "quick"), verif)
	case "worker":
		workerMain()
	case "replay":
		replay(os.Args[2])
	case "count":
		n := 0
		props[os.Args[2]].Gen(env("VERIF_TIER", "quick"), func(c Case) { n++ })
		fmt.Println(n)
	case "profile": // one worker over everything, in this process
		p := props[os.Args[2]]
		w := &worker{p: p, tier: env("VERIF_TIER", "quick"), n: 1, deadline: time.Now().Add(time.Hour), maxViol: 1,
			outcomes: map[uint64]struct{}{}, states: map[uint64]struct{}{}}
		cur = w
		if len(os.Args) > 3 { // only this case
			w.only = os.Args[3]
		}
		if p.Setup != nil {
			p.Setup()
		}
		if f := os.Getenv("MC_PROFILE"); f != "" {
			o, _ := os.Create(f)
			pprof.StartCPUProfile(o)
			defer pprof.StopCPUProfile()
		}
		w.all()
	default:
		os.Exit(2)
	}
}

func workerMain() {
	a := os.Args[2:]
	w := &worker{p: props[a[0]], tier: a[1], outcomes: map[uint64]struct{}{}, states: map[uint64]struct{}{}, maxViol: 1}
	w.i, _ = strconv.Atoi(a[2])
	w.n, _ = strconv.Atoi(a[3])
	secs, _ := strconv.Atoi(a[4])
	out := a[5]
	if len(a) > 6 {
		w.only = a[6]
	}
	w.plain = os.Getenv("MC_PLAIN") != ""
	w.deadline = time.Now().Add(time.Duration(secs) * time.Second)
	signal.Ignore(syscall.SIGXFSZ, syscall.SIGPIPE)
	runtime.GOMAXPROCS(4)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(3 << 30)
	if f, err := os.OpenFile(out+".prog", os.O_RDWR|os.O_CREATE, 0o644); err == nil {
		f.Truncate(4096)
		if m, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
			w.prog = m
		}
		f.Close()
	}
	cur = w
	if w.p.Setup != nil {
		w.p.Setup()
	}
	w.all()
	writeSet(out+".states", w.states)
	writeSet(out+".outcomes", w.outcomes)
	b, _ := json.Marshal(w.st)
	os.WriteFile(out+".json", b, 0o644)
}

func writeSet(name string, m map[uint64]struct{}) {
	b := make([]byte, 0, len(m)*8)
	for k := range m {
		b = binary.LittleEndian.AppendUint64(b, k)
	}
	os.WriteFile(name, b, 0o644)
}

func readSet(name string, m map[uint64]struct{}) {
	b, err := os.ReadFile(name)
	if err != nil {
		return
	}
	for ; len(b) >= 8; b = b[8:] {
		m[binary.LittleEndian.Uint64(b)] = struct{}{}
	}
	os.Remove(name)
}

type result struct {
	st     stats
	died   string // how a worker ended that did not finish
	hung   bool
	lastKy string
}

// spawn runs one worker and watches over it.
func spawn(dir string, p *Prop, tier string, i, n, secs int, only string, started *atomic.Int64) result {
	out := filepath.Join(dir, fmt.Sprintf("w%d-%d", i, started.Add(1)))
	args := []string{"worker", p.ID, tier, strconv.Itoa(i), strconv.Itoa(n), strconv.Itoa(secs), out}
	if only != "" {
		args = append(args, only)
	}
	cmd := exec.Command(os.Args[0], args...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Dir = dir
	errf, _ := os.Create(out + ".err")
	cmd.Stderr = errf
	cmd.Stdout = errf
	var r result
	if err := cmd.Start(); err != nil {
		r.died = err.Error()
		return r
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	lastN, lastT := uint64(0), time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	prog := func() (uint64, string) {
		b, e := os.ReadFile(out + ".prog")
		if e != nil || len(b) < 16 {
			return 0, ""
		}
		l := binary.LittleEndian.Uint64(b[8:])
		if l > uint64(len(b)-16) {
			l = uint64(len(b) - 16)
		}
		return binary.LittleEndian.Uint64(b), string(b[16 : 16+l])
	}
loop:
	for {
		select {
		case err = <-done:
			break loop
		case <-tick.C:
			n, _ := prog()
			if n != lastN {
				lastN, lastT = n, time.Now()
			} else if time.Since(lastT) > 90*time.Second {
				r.hung = true
				syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
				time.Sleep(300 * time.Millisecond)
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				err = <-done
				break loop
			}
		}
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) // whatever it left behind
	_, r.lastKy = prog()
	errf.Close()
	if b, e := os.ReadFile(out + ".json"); e == nil && err == nil {
		json.Unmarshal(b, &r.st)
		return r
	}
	b, _ := os.ReadFile(out + ".err")
	r.died = fmt.Sprintf("%v\n%s", err, clip(string(b), 3000))
	return r
}

func check(id, tier, verif string) {
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", id)
		os.Exit(2)
	}
	start := time.Now()
	dir, err := os.MkdirTemp(env("MC_TMP", os.TempDir()), "mc-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 1 {
		n = 1
	}
	if v, e := strconv.Atoi(os.Getenv("MC_WORKERS")); e == nil && v > 0 {
		n = v
	}
	secs := p.Quick
	if tier == "thorough" {
		secs = p.Thorough
	}
	if v, e := strconv.Atoi(os.Getenv("MC_SECONDS")); e == nil && v > 0 {
		secs = v
	}
	var started atomic.Int64
	res := make([]result, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			res[i] = spawn(dir, p, tier, i, n, secs, "", &started)
		}()
	}
	wg.Wait()
	var t stats
	t.ByBound = map[string]int64{}
	merge := func(s stats) {
		t.Cases += s.Cases
		t.Execs += s.Execs
		t.Nodes += s.Nodes
		t.Steps += s.Steps
		t.Evals += s.Evals
		t.Diverged += s.Diverged
		t.Flaky += s.Flaky
		t.Limited += s.Limited
		t.Skipped += s.Skipped
		if s.MaxPoints > t.MaxPoints {
			t.MaxPoints = s.MaxPoints
		}
		if s.MaxSteps > t.MaxSteps {
			t.MaxSteps = s.MaxSteps
		}
		for k, v := range s.ByBound {
			t.ByBound[k] += v
		}
		if len(t.Samples) < 12 {
			t.Samples = append(t.Samples, s.Samples...)
		}
		t.Notes = append(t.Notes, s.Notes...)
		t.Deadline = t.Deadline || s.Deadline
		t.Violations = append(t.Violations, s.Violations...)
		t.Known = append(t.Known, s.Known...)
	}
	lost := 0
	for i := range res {
		r := &res[i]
		if r.died == "" {
			merge(r.st)
			continue
		}
		lost++
		t.Notes = append(t.Notes, fmt.Sprintf("worker %d ended at case %q: %s", i, r.lastKy, clip(r.died, 1500)))
		if r.lastKy == "" {
			continue
		}
		// does this case end a worker every time?
		crashed := 0
		var last result
		tries := 3
		if r.hung {
			tries = 1
		}
		for k := 0; k < tries; k++ {
			last = spawn(dir, p, tier, 0, 1, secs, r.lastKy, &started)
			if last.died == "" {
				merge(last.st)
				break
			}
			crashed++
		}
		if crashed == tries {
			what := "the process crashes"
			if last.hung {
				what = "the process hangs"
			}
			v := Violation{Property: id, Case: r.lastKy, Tier: tier, What: []string{what + ": " + clip(last.died, 3000)}}
			if known(id, r.lastKy) != "" {
				t.Known = append(t.Known, v)
			} else {
				t.Violations = append(t.Violations, v)
			}
		}
	}
	states, outcomes := map[uint64]struct{}{}, map[uint64]struct{}{}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.states"))
	for _, f := range fs {
		readSet(f, states)
	}
	fs, _ = filepath.Glob(filepath.Join(dir, "*.outcomes"))
	for _, f := range fs {
		readSet(f, outcomes)
	}
	os.RemoveAll(dir)

	exhaustive := !t.Deadline && t.Diverged == 0 && t.Flaky == 0 && t.Limited == 0 && t.Skipped == 0 && lost == 0 && os.Getenv("MC_PLAIN") == ""
	evals := t.Evals
	if evals < t.Execs {
		evals = t.Execs
	}
	sort.Slice(t.Samples, func(i, j int) bool { return len(t.Samples[i]) < len(t.Samples[j]) })
	if len(t.Samples) > 8 {
		t.Samples = t.Samples[len(t.Samples)-8:]
	}
	if t.Samples == nil {
		t.Samples = []string{}
	}
	cov := map[string]any{
		"cases":                         t.Cases,
		"states":                        t.Nodes + int64(len(states)),
		"decision_nodes":                t.Nodes,
		"recorded_states":               len(states),
		"transitions":                   t.Steps + evals,
		"traces_validated_against_impl": t.Execs,
		"evaluations":                   evals,
		"distinct_nontrivial":           len(outcomes),
		"rule":                          p.Rule,
		"samples":                       t.Samples,
		"exhaustive":                    exhaustive,
		"longest_execution_decisions":   t.MaxPoints,
		"longest_execution_steps":       t.MaxSteps,
		"cases_by_completed_bound":      t.ByBound,
		"diverged":                      t.Diverged,
		"not_reproducible":              t.Flaky,
		"limited":                       t.Limited,
		"skipped_cases":                 t.Skipped,
		"deadline_hit":                  t.Deadline,
		"workers":                       n,
		"workers_lost":                  lost,
	}
	if p.Bounds != nil {
		cov["bounds"] = p.Bounds(tier)
	}
	if len(t.Notes) > 0 {
		cov["notes"] = t.Notes
	}
	if os.Getenv("MC_PLAIN") != "" {
		cov["instrumentation"] = "not available: ran without the scheduler"
	}
	seed, _ := strconv.Atoi(env("VERIF_SEED", "1"))
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(t.Violations),
		"assumptions": p.Assume,
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s %s: %d cases, %d executions, %d evaluations, %d decision nodes, %d recorded states, %d distinct outcomes, exhaustive=%v, %.1fs\n",
		id, tier, t.Cases, t.Execs, evals, t.Nodes, len(states), len(outcomes), exhaustive, time.Since(start).Seconds())
	for _, nt := range t.Notes {
		fmt.Println("note:", strings.ReplaceAll(clip(nt, 600), "\n", " | "))
	}
	reported := map[string]bool{}
	for _, v := range t.Known {
		if !reported[v.Case] {
			reported[v.Case] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, known(id, v.Case))
		}
	}
	if len(t.Violations) == 0 {
		return
	}
	os.MkdirAll(filepath.Join(verif, "replays"), 0o755)
	sort.SliceStable(t.Violations, func(i, j int) bool {
		a, b := t.Violations[i], t.Violations[j]
		if len(a.Choices) != len(b.Choices) {
			return len(a.Choices) < len(b.Choices)
		}
		return len(a.Case) < len(b.Case)
	})
	for i, v := range t.Violations {
		if i == 3 {
			break
		}
		name := filepath.Join(verif, "replays", fmt.Sprintf("%s-%d.json", id, i))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(name, append(b, '\n'), 0o644)
		fmt.Printf("  case %s\n", v.Case)
		for _, s := range v.What {
			fmt.Printf("    %s\n", strings.ReplaceAll(clip(s, 900), "\n", "\n    "))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, name)
	}
	os.Exit(1)
}

func replay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	signal.Ignore(syscall.SIGXFSZ, syscall.SIGPIPE)
	p := props[v.Property]
	w := &worker{p: p, tier: v.Tier, outcomes: map[uint64]struct{}{}, states: map[uint64]struct{}{}}
	cur = w
	if p.Setup != nil {
		p.Setup()
	}
	found := false
	p.Gen(v.Tier, func(c Case) {
		if c.Key != v.Case || found {
			return
		}
		found = true
		x := w.run(&c, v.Choices, true)
		for _, e := range x.Events {
			fmt.Println(e)
		}
		fmt.Println("verdict:", x.Verdict, x.Detail)
		for _, f := range x.Fails {
			fmt.Println("fail:", f)
		}
		if failed(x) {
			fmt.Println("REPRODUCED")
			os.Exit(1)
		}
		fmt.Println("not reproduced")
	})
	if !found {
		fmt.Println("no case", v.Case)
		os.Exit(2)
	}
}
