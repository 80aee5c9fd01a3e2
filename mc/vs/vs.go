// Package vs is a controlled scheduler for Go code.
//
// The instrumenter (verif/mc/instr) rewrites the packages of /repo so that every goroutine start,
// channel operation, select and lock goes through this package, and puts a call of Y (or L) before
// every statement. Inside vs.Run exactly one goroutine runs at a time, and at each point the
// scheduler decides, from a list of choices that the explorer controls, which one goes on. Channels
// keep their Go types but inside Run their contents live here, with the semantics of the Go runtime
// (first-in-first-out wait queues, a free choice among the ready cases of a select).
//
// Outside Run everything passes through to the real operations, so the instrumented packages can
// also run the repository's own tests.
package vs

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
	"unsafe"
)

type tstate uint8

const (
	tReady tstate = iota
	tBlocked
	tDone
)

type thread struct {
	id    int
	gate  chan struct{}
	state tstate
	what  string // what it is blocked on
	seq   uint64 // validity of wait-queue entries
	// result of the operation that blocked
	rIdx      int
	rVal      any
	rOK       bool
	rPanic    bool
	quiesce   bool
	signalled bool
	polls     []pollEntry
	run       int // consecutive steps without a switch while others are ready
}

type pollEntry struct {
	idx int
	f   func() (any, bool, bool)
}

type waiter struct {
	t   *thread
	seq uint64
	idx int
	val any
}

func (w *waiter) valid() bool { return w.t.state == tBlocked && w.t.seq == w.seq }

type vchan struct {
	ref    any // keeps the real channel alive, so that its address is not reused
	cap    int
	buf    []any
	closed bool
	recvq  []waiter
	sendq  []waiter
	name   int
}

func popValid(q *[]waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.valid() {
			return &w
		}
	}
	return nil
}

// Point is one decision of an execution.
type Point struct {
	N      int32 // number of alternatives
	Choice int32
	Cost   int32 // cost of taking an alternative other than 0
	Before int32 // cost spent before this point
	Kind   byte  // 'p' preemption possible, 'b' running thread blocked, 's' select, 'e' environment
}

// Opts are the parameters of one exploration.
type Opts struct {
	Mask     uint32 // packages whose statements are preemption points
	Blocked  int32  // cost of not taking the first thread when the running one blocks (0 or 1)
	MaxSteps int64  // horizon
	EnvCost  int32  // default cost of a non-default environment answer (Choose)
}

// Exec is one execution.
type Exec struct {
	opts     Opts
	threads  []*thread // those that have not ended
	nthreads int
	cur      *thread
	prefix   []int32
	Trace    []Point
	cost     int32
	Steps    int64
	chans    map[unsafe.Pointer]*vchan
	aborted  bool
	done     chan struct{}
	ack      chan struct{}
	Verdict  string   // "", "deadlock", "livelock", "panic", "diverged"
	Detail   string   // explanation of the verdict
	Fails    []string // oracle failures
	Outcome  string   // observable outcome, for counting distinct ones
	Events   []string // log (only when Logging)
	Logging  bool
	Leaked   int // threads still blocked at the end
	mainEnd  bool
	fixed    bool
}

// X is the running execution (nil outside Run). Only the goroutine that holds the token uses it.
var X *Exec

const fairness = 20000

// Run performs one execution of body, following prefix and then taking choice 0 everywhere.
func Run(o Opts, prefix []int32, logging bool, body func()) *Exec {
	if o.MaxSteps == 0 {
		o.MaxSteps = 5_000_000
	}
	x := &Exec{opts: o, prefix: prefix, chans: map[unsafe.Pointer]*vchan{}, done: make(chan struct{}), ack: make(chan struct{}), Logging: logging}
	if X != nil {
		panic("vs: nested Run")
	}
	X = x
	t := x.newThread()
	x.cur = t
	go x.wrap(t, body)
	t.gate <- struct{}{}
	<-x.done
	// end the goroutines that are left, one after another
	x.aborted = true
	for _, t := range x.threads {
		if t.state != tDone {
			if t.state == tBlocked {
				x.Leaked++
			}
			x.cur = t
			t.gate <- struct{}{}
			<-x.ack
		}
	}
	X = nil
	return x
}

func (x *Exec) newThread() *thread {
	t := &thread{id: x.nthreads, gate: make(chan struct{}, 1)}
	x.nthreads++
	x.threads = append(x.threads, t)
	return t
}

func (x *Exec) wrap(t *thread, f func()) {
	<-t.gate
	defer func() {
		r := recover()
		t.state = tDone
		if x.aborted {
			x.ack <- struct{}{}
			return
		}
		for i, o := range x.threads {
			if o == t {
				x.threads = append(x.threads[:i], x.threads[i+1:]...)
				break
			}
		}
		if r != nil {
			x.verdict("panic", fmt.Sprintf("goroutine %d: %v\n%s", t.id, r, shortStack()))
			x.finish()
			return
		}
		if t.id == 0 {
			x.mainEnd = true
		}
		if next := x.next(t, true); next != nil {
			x.cur = next
			next.gate <- struct{}{}
		} else {
			x.finish()
		}
	}()
	if x.aborted {
		return
	}
	f()
}

func shortStack() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/vs/") || strings.Contains(l, "verif/mc/vs.") || strings.HasPrefix(l, "runtime/debug") || strings.Contains(l, "src/runtime") {
			continue
		}
		out = append(out, l)
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (x *Exec) verdict(v, d string) {
	if x.Verdict == "" {
		x.Verdict, x.Detail = v, d
	}
}

func (x *Exec) finish() { x.done <- struct{}{} }

// stop ends the execution from the running thread.
func (x *Exec) stop(v, d string) {
	x.verdict(v, d)
	t := x.cur
	t.state = tReady
	x.finish()
	<-t.gate
	runtime.Goexit()
}

// choose makes one decision.
func (x *Exec) choose(n int, cost int32, kind byte) int {
	if n <= 1 || x.fixed {
		return 0
	}
	p := len(x.Trace)
	c := int32(0)
	if p < len(x.prefix) {
		c = x.prefix[p]
		if int(c) >= n {
			x.verdict("diverged", fmt.Sprintf("choice %d of %d at point %d", c, n, p))
			c = 0
		}
	}
	x.Trace = append(x.Trace, Point{N: int32(n), Choice: c, Cost: cost, Before: x.cost, Kind: kind})
	if c != 0 {
		x.cost += cost
	}
	return int(c)
}

// next picks the thread to go on. It returns nil when the execution is over.
func (x *Exec) next(t *thread, gone bool) *thread {
	for {
		var cands []*thread
		var arr [16]*thread
		cands = arr[:0]
		if !gone && t.state == tReady {
			cands = append(cands, t)
		}
		for _, o := range x.threads {
			if o.state == tReady && (gone || o != t) {
				cands = append(cands, o)
			}
		}
		if len(cands) == 0 {
			if x.pollNative() {
				continue
			}
			for _, o := range x.threads {
				if o.state == tBlocked && o.quiesce {
					o.quiesce = false
					o.state = tReady
					return o
				}
			}
			if x.mainEnd {
				return nil
			}
			if x.pollNativeWait() {
				continue
			}
			var b []string
			for _, o := range x.threads {
				if o.state == tBlocked {
					b = append(b, fmt.Sprintf("goroutine %d: %s", o.id, o.what))
				}
			}
			x.verdict("deadlock", strings.Join(b, "; "))
			return nil
		}
		cost, kind := x.opts.Blocked, byte('b')
		if !gone && t.state == tReady {
			cost, kind = 1, 'p'
			if t.run > fairness && len(cands) > 1 { // forced, deterministic rotation
				t.run = 0
				for _, o := range cands[1:] {
					if o.id > t.id {
						return o
					}
				}
				return cands[1]
			}
		}
		return cands[x.choose(len(cands), cost, kind)]
	}
}

// point is a scheduling point of the running thread.
func (x *Exec) point() {
	t := x.cur
	if t.state == tReady {
		if len(x.threads) == 1 {
			return
		}
	}
	n := x.next(t, false)
	if n == t {
		return
	}
	t.run = 0
	if n == nil {
		x.finish()
	} else {
		x.cur = n
		n.gate <- struct{}{}
	}
	<-t.gate
	if x.aborted {
		runtime.Goexit()
	}
}

// block suspends the running thread until another one wakes it.
func (x *Exec) block(what string) {
	t := x.cur
	t.state = tBlocked
	t.what = what
	x.point()
	t.polls = t.polls[:0]
}

func (x *Exec) wake(w *waiter, val any, ok, pan bool) {
	t := w.t
	t.rIdx, t.rVal, t.rOK, t.rPanic = w.idx, val, ok, pan
	t.state = tReady
	t.seq++
}

func (x *Exec) pollNative() bool {
	found := false
	for _, t := range x.threads {
		if t.state != tBlocked {
			continue
		}
		for _, p := range t.polls {
			if v, ok, ready := p.f(); ready {
				w := waiter{t: t, seq: t.seq, idx: p.idx}
				x.wake(&w, v, ok, false)
				found = true
				break
			}
		}
	}
	return found
}

// pollNativeWait gives channels that are fed from outside (timers) time to deliver, before a deadlock
// is declared.
func (x *Exec) pollNativeWait() bool {
	any := false
	for _, t := range x.threads {
		any = any || t.state == tBlocked && len(t.polls) > 0
	}
	if !any {
		return false
	}
	for i := 0; i < 100; i++ {
		if x.pollNative() {
			return true
		}
		time.Sleep(5 * time.Millisecond)
	}
	return false
}

func (x *Exec) step() {
	x.Steps++
	if x.Steps > x.opts.MaxSteps {
		x.stop("livelock", fmt.Sprintf("no end after %d steps\n%s", x.Steps, shortStack()))
	}
	x.cur.run++
}

// Y is put before each statement that may touch shared state. k is the number of its package.
func Y(k uint) {
	if x := X; x != nil {
		x.y(k)
	}
}

func (x *Exec) y(k uint) {
	if x.aborted {
		x.Steps++
		if x.Steps > x.opts.MaxSteps+1000000 {
			runtime.Goexit()
		}
		return
	}
	x.step()
	if x.opts.Mask&(1<<k) != 0 || (x.cur.run > fairness && len(x.threads) > 1) {
		x.point()
	}
	if crashHook != nil {
		crashHook(k)
	}
}

// L is put before each statement that only touches variables of its own function.
func L(k uint) {
	if x := X; x != nil && !x.aborted {
		x.step()
	}
}

// Unscheduled runs f without the scheduler, at full speed on real threads. Everything that f starts
// must have ended when it returns.
func Unscheduled(f func()) {
	x, n := X, runtime.NumGoroutine()
	X = nil
	defer func() {
		// what f started may still be about to end
		for i := 0; i < 1000 && runtime.NumGoroutine() > n; i++ {
			time.Sleep(time.Millisecond)
		}
		X = x
	}()
	f()
}

// D is deferred behind every deferred call: a scheduling point before that call is made.
func D(k uint) {
	x := X
	if x == nil || x.aborted {
		return
	}
	Y(k)
}

var crashHook func(k uint)

// SetHook registers a function called at every statement of every instrumented package
// (crash-point enumeration).
func SetHook(f func(k uint)) { crashHook = f }

// op is the scheduling point before a synchronisation operation. It reports false when the
// operation must have no effect (the execution is being torn down).
func (x *Exec) op() bool {
	if x.aborted {
		return false
	}
	x.step()
	x.point()
	return true
}

func (x *Exec) ch(p unsafe.Pointer, ref any, c int) *vchan {
	v := x.chans[p]
	if v == nil {
		v = &vchan{ref: ref, cap: c, name: len(x.chans)}
		x.chans[p] = v
	}
	return v
}

func chanptr[T any](c T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

// Go starts a goroutine.
func Go(f func()) {
	x := X
	if x == nil {
		go f()
		return
	}
	if x.aborted {
		return
	}
	t := x.newThread()
	go x.wrap(t, f)
	x.op()
}

func (x *Exec) send(v *vchan, val any) {
	if v.closed {
		panic("send on closed channel")
	}
	if w := popValid(&v.recvq); w != nil {
		x.wake(w, val, true, false)
		return
	}
	if len(v.buf) < v.cap {
		v.buf = append(v.buf, val)
		return
	}
	t := x.cur
	t.seq++
	v.sendq = append(v.sendq, waiter{t: t, seq: t.seq, val: val})
	x.block(fmt.Sprintf("send on channel %d", v.name))
	if t.rPanic {
		t.rPanic = false
		panic("send on closed channel")
	}
}

func (x *Exec) tryRecv(v *vchan) (val any, ok, ready bool) {
	if len(v.buf) > 0 {
		val = v.buf[0]
		v.buf = v.buf[1:]
		if w := popValid(&v.sendq); w != nil {
			v.buf = append(v.buf, w.val)
			x.wake(w, nil, true, false)
		}
		return val, true, true
	}
	if w := popValid(&v.sendq); w != nil {
		x.wake(w, nil, true, false)
		return w.val, true, true
	}
	if v.closed {
		return nil, false, true
	}
	return nil, false, false
}

func nativePoll[T any](c <-chan T) func() (any, bool, bool) {
	return func() (any, bool, bool) {
		select {
		case v, ok := <-c:
			return v, ok, true
		default:
			return nil, false, false
		}
	}
}

// Sender returns the send operation of a channel. (Two steps, so that the value is converted to the
// element type by assignment.)
func Sender[T any](c chan<- T) func(T) {
	return func(val T) {
		x := X
		if x == nil {
			c <- val
			return
		}
		if !x.op() {
			return
		}
		if c == nil {
			x.block("send on nil channel")
			return
		}
		x.send(x.ch(chanptr(c), c, cap(c)), val)
	}
}

// Send sends on a channel.
func Send[T any](c chan<- T, v T) { Sender(c)(v) }

// Recv2 receives from a channel.
func Recv2[T any](c <-chan T) (T, bool) {
	x := X
	if x == nil {
		v, ok := <-c
		return v, ok
	}
	var zero T
	if !x.op() {
		return zero, false
	}
	if c == nil {
		x.block("receive from nil channel")
		return zero, false
	}
	v := x.ch(chanptr(c), c, cap(c))
	val, ok, ready := x.tryRecv(v)
	if !ready {
		poll := nativePoll(c)
		if nv, nok, nready := poll(); nready {
			val, ok = nv, nok
		} else {
			t := x.cur
			t.seq++
			v.recvq = append(v.recvq, waiter{t: t, seq: t.seq})
			t.polls = append(t.polls[:0], pollEntry{0, poll})
			x.block(fmt.Sprintf("receive from channel %d", v.name))
			val, ok = t.rVal, t.rOK
		}
	}
	if val == nil {
		return zero, ok
	}
	return val.(T), ok
}

// Recv receives from a channel.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Close closes a channel.
func Close[T any](c chan<- T) {
	x := X
	if x == nil {
		close(c)
		return
	}
	if !x.op() {
		return
	}
	if c == nil {
		panic("close of nil channel")
	}
	v := x.ch(chanptr(c), c, cap(c))
	if v.closed {
		panic("close of closed channel")
	}
	v.closed = true
	for w := popValid(&v.recvq); w != nil; w = popValid(&v.recvq) {
		x.wake(w, nil, false, false)
	}
	for w := popValid(&v.sendq); w != nil; w = popValid(&v.sendq) {
		x.wake(w, nil, false, true)
	}
}

// Len is len of a channel.
func Len[T any](c <-chan T) int {
	x := X
	if x == nil {
		return len(c)
	}
	if !x.op() || c == nil {
		return 0
	}
	return len(x.ch(chanptr(c), c, cap(c)).buf)
}

// Case is one case of a select.
type Case struct {
	ptr    unsafe.Pointer
	ref    any
	cap    int
	isSend bool
	val    any
	poll   func() (any, bool, bool)
	real   func(block bool) (any, bool, bool)
}

// RecvCase is a receive case.
func RecvCase[T any](c <-chan T) Case {
	if X == nil {
		return Case{ref: c}
	}
	return Case{ptr: chanptr(c), ref: c, cap: cap(c), poll: nativePoll(c)}
}

// SendCase is a send case; the value is supplied to the returned function.
func SendCase[T any](c chan<- T) func(T) Case {
	return func(v T) Case {
		return Case{ptr: chanptr(c), ref: c, cap: cap(c), isSend: true, val: v}
	}
}

// Sel is the outcome of a select.
type Sel struct {
	I   int // index of the case, -1 for default
	val any
	ok  bool
}

// SelVal is the value received by a select, as an element of the given channel.
func SelVal[T any](c <-chan T, s Sel) T {
	var zero T
	if s.val == nil {
		return zero
	}
	return s.val.(T)
}

// SelVal2 is SelVal with the second result of a receive.
func SelVal2[T any](c <-chan T, s Sel) (T, bool) { return SelVal(c, s), s.ok }

// Select performs a select.
func Select(hasDefault bool, cases ...Case) Sel {
	x := X
	if x == nil {
		return realSelect(hasDefault, cases)
	}
	if !x.op() {
		if hasDefault {
			return Sel{I: -1}
		}
		runtime.Goexit()
	}
	vcs := make([]*vchan, len(cases))
	var ready []int
	type nat struct {
		v  any
		ok bool
	}
	var native map[int]nat
	for i, c := range cases {
		if c.ptr == nil {
			continue
		}
		v := x.ch(c.ptr, c.ref, c.cap)
		vcs[i] = v
		if c.isSend {
			prune(&v.recvq)
			if v.closed || len(v.recvq) > 0 || len(v.buf) < v.cap {
				ready = append(ready, i)
			}
		} else {
			prune(&v.sendq)
			if v.closed || len(v.sendq) > 0 || len(v.buf) > 0 {
				ready = append(ready, i)
			} else if c.poll != nil {
				if nv, nok, r := c.poll(); r {
					if native == nil {
						native = map[int]nat{}
					}
					native[i] = nat{nv, nok}
					return Sel{I: i, val: nv, ok: nok}
				}
			}
		}
	}
	if len(ready) > 0 {
		i := ready[x.choose(len(ready), 0, 's')]
		if cases[i].isSend {
			x.send(vcs[i], cases[i].val)
			return Sel{I: i}
		}
		val, ok, _ := x.tryRecv(vcs[i])
		return Sel{I: i, val: val, ok: ok}
	}
	if hasDefault {
		return Sel{I: -1}
	}
	t := x.cur
	t.seq++
	var names []string
	t.polls = t.polls[:0]
	for i, c := range cases {
		if vcs[i] == nil {
			continue
		}
		w := waiter{t: t, seq: t.seq, idx: i, val: c.val}
		if c.isSend {
			vcs[i].sendq = append(vcs[i].sendq, w)
			names = append(names, fmt.Sprintf("send %d", vcs[i].name))
		} else {
			vcs[i].recvq = append(vcs[i].recvq, w)
			names = append(names, fmt.Sprintf("receive %d", vcs[i].name))
			t.polls = append(t.polls, pollEntry{i, c.poll})
		}
	}
	x.block("select " + strings.Join(names, ","))
	if t.rPanic {
		t.rPanic = false
		panic("send on closed channel")
	}
	return Sel{I: t.rIdx, val: t.rVal, ok: t.rOK}
}

func prune(q *[]waiter) {
	for len(*q) > 0 && !(*q)[0].valid() {
		*q = (*q)[1:]
	}
}

// BlockForever is an empty select.
func BlockForever() {
	if X == nil {
		select {}
	}
	if X.op() {
		X.block("empty select")
	}
	runtime.Goexit()
}

// ---- for harnesses ----

// Choose lets the environment answer: the explorer tries every value in [0,n). Values other than 0
// cost the given amount of the bound.
func Choose(n int, cost int) int {
	if X == nil || X.aborted {
		return 0
	}
	return X.choose(n, int32(cost), 'e')
}

// Quiesce waits until no other goroutine can run.
func Quiesce() {
	x := X
	if x == nil {
		time.Sleep(20 * time.Millisecond)
		return
	}
	if x.aborted {
		return
	}
	t := x.cur
	t.quiesce = true
	x.block("quiesce")
}

// Pause is a scheduling point.
func Pause() {
	if X != nil {
		X.op()
	}
}

// Failf records a violation of the property by this execution.
func Failf(format string, a ...any) {
	if X != nil && !X.aborted {
		if len(X.Fails) < 20 {
			X.Fails = append(X.Fails, fmt.Sprintf(format, a...))
		}
	} else if X == nil && plain != nil {
		plainMu.Lock()
		if len(plain.Fails) < 20 {
			plain.Fails = append(plain.Fails, fmt.Sprintf(format, a...))
		}
		plainMu.Unlock()
	}
}

// Outcome records what an execution did, for counting distinct outcomes.
func Outcome(format string, a ...any) {
	if X != nil && !X.aborted {
		X.Outcome += fmt.Sprintf(format, a...) + ";"
	}
}

// Budget sets the horizon to n steps from now.
func Budget(n int64) {
	if X != nil && !X.aborted {
		X.opts.MaxSteps = X.Steps + n
	}
}

// Fixed switches decisions off: the first choice is taken everywhere.
func Fixed(on bool) {
	if X != nil && !X.aborted {
		X.fixed = on
	}
}

// Steps is the number of steps of this execution so far.
func Steps() int64 {
	if X != nil {
		return X.Steps
	}
	return 0
}

// plain is the execution while there is no scheduler (the instrumented build is not available).
var (
	plain   *Exec
	plainMu sync.Mutex
)

// RunPlain runs the body without scheduler.
func RunPlain(timeout time.Duration, body func()) *Exec {
	x := &Exec{}
	plain = x
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				plainMu.Lock()
				x.Verdict, x.Detail = "panic", fmt.Sprint(r)
				plainMu.Unlock()
			}
		}()
		body()
	}()
	select {
	case <-done:
	case <-time.After(timeout):
		plainMu.Lock()
		x.Verdict, x.Detail = "hang", "no end"
		plainMu.Unlock()
	}
	plainMu.Lock()
	r := *x
	plain = nil
	plainMu.Unlock()
	return &r
}

// Logf adds to the log of the execution.
func Logf(format string, a ...any) {
	if X != nil && X.Logging && !X.aborted {
		X.Events = append(X.Events, fmt.Sprintf("[%d] ", X.cur.id)+fmt.Sprintf(format, a...))
	}
}

// Aborted reports whether the execution is being torn down.
func Aborted() bool { return X != nil && X.aborted }

// Me is the number of the running goroutine.
func Me() int {
	if X == nil {
		return -1
	}
	return X.cur.id
}

// Others describes the goroutines, except the running one, that have not ended.
func Others() []string {
	var r []string
	if X == nil {
		return nil
	}
	for _, t := range X.threads {
		if t != X.cur && t.state != tDone {
			r = append(r, fmt.Sprintf("goroutine %d: %s", t.id, t.what))
		}
	}
	sort.Strings(r)
	return r
}

// Queue is a wait queue.
type Queue struct {
	q     []waiter
	conds []*thread
}

// Wait blocks the running goroutine on the queue.
func (q *Queue) Wait(what string) {
	x := X
	t := x.cur
	t.seq++
	q.q = append(q.q, waiter{t: t, seq: t.seq})
	x.block(what)
}

// WakeOne makes the first waiting goroutine runnable.
func (q *Queue) WakeOne() {
	if w := popValid(&q.q); w != nil {
		X.wake(w, nil, true, false)
	}
}

// WakeAll makes all waiting goroutines runnable.
func (q *Queue) WakeAll() {
	for w := popValid(&q.q); w != nil; w = popValid(&q.q) {
		X.wake(w, nil, true, false)
	}
}

// Op is the scheduling point before a synchronisation operation; false means: do nothing.
func Op() bool { return X.op() }

// On reports whether the code runs under the scheduler.
func On() bool { return X != nil }

// Enter puts the running goroutine on the queue of a condition; Sleep then blocks it until it has been
// signalled (possibly in between).
func (q *Queue) Enter() {
	t := X.cur
	t.signalled = false
	q.conds = append(q.conds, t)
}

// Sleep blocks until signalled.
func (q *Queue) Sleep(what string) {
	x := X
	t := x.cur
	for !t.signalled && !x.aborted {
		q.Wait(what)
	}
}

// SignalOne signals the first goroutine of a condition.
func (q *Queue) SignalOne() {
	if len(q.conds) > 0 {
		q.conds[0].signalled = true
		q.conds = q.conds[1:]
		q.WakeAll()
	}
}

// SignalAll signals all goroutines of a condition.
func (q *Queue) SignalAll() {
	for _, t := range q.conds {
		t.signalled = true
	}
	q.conds = nil
	q.WakeAll()
}

// Zero is the zero value of the elements of a channel.
func Zero[T any](c <-chan T) (z T) { return }

// Ready reports whether a receive from the channel would not block.
func Ready[T any](c <-chan T) bool {
	x := X
	if x == nil {
		return len(c) > 0
	}
	if c == nil {
		return false
	}
	v := x.ch(chanptr(c), c, cap(c))
	prune(&v.sendq)
	return v.closed || len(v.buf) > 0 || len(v.sendq) > 0
}

// Go2 starts a goroutine without a scheduling point.
func Go2(f func()) {
	x := X
	if x == nil {
		go f()
		return
	}
	if x.aborted {
		return
	}
	t := x.newThread()
	go x.wrap(t, f)
}
