package main

import (
	"bytes"
	"crypto/md5"
	"errors"
	"fmt"
	"strings"
	"sync"
	"syscall"

	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/patcher"
	"verif/mc/eng"
	"verif/mc/vs"
)

// ---- a closed system around a real BlockSourceBase ----

// The environment waits until nothing can run, and then one of the possible events happens: the next
// range is requested, a running transfer ends (well, with an error, or with corrupt data), the consumer
// takes an offered response or error, the source is closed. All orders of events are explored; the
// scheduler adds preemptions between them.

type rng struct{ a, b uint }

type transfer struct {
	start, end int64
	done       bool // the environment ended it
	how        int
	q          vs.Queue
}

const (
	ok = iota
	fail
	corrupt
	empty
	none      // no data, and no error
	longer    // a byte more than was asked for, and no error
	blockMore // a block more
)

type bsEnv struct {
	real    bool // the verifier is a HashVerifier
	file    []byte
	bs      int
	ranges  []rng
	faults  []int // how transfers may end
	maxConc int
	closes  int
	auto    []int // how the transfer of each block ends, at once
	takes   bool  // the consumer may take (otherwise it never reads)

	src       *blocksources.BlockSourceBase
	transfers []*transfer
	running   int
	peak      int
	failedAt  bool // a failed transfer was observed
	closedAt  bool
	frozen    int // number of transfers when nothing more may start
	got       []patcher.BlockReponse
	errs      []error
	errClosed bool
	resClosed bool
	requested int
	reqDone   int
	reqErr    int
	closing   int
	closeRet  int
	closeReq  int // requested transfers
	bytes     int64
	acts      []string
}

type bsRequester struct{ e *bsEnv }

var errTransfer = errors.New("transfer failed")

// an error that is not called fatal
var errPassing = errors.New("transfer failed for now")

func (r *bsRequester) DoRequest(start, end int64) ([]byte, error) {
	e := r.e
	t := &transfer{start: start, end: end}
	e.transfers = append(e.transfers, t)
	e.running++
	if e.running > e.peak {
		e.peak = e.running
	}
	if e.frozen >= 0 && len(e.transfers) > e.frozen {
		eng.Failf("a transfer of bytes %d-%d was started after the source had observed a failure or was closed", start, end)
	}
	if e.auto != nil {
		vs.Pause()
		t.done, t.how = true, e.auto[int(start)/e.bs]
	}
	for !t.done {
		t.q.Wait("transfer")
	}
	e.running--
	if start < 0 || end > int64(len(e.file)) || start >= end {
		eng.Failf("transfer of bytes %d-%d outside of the file of %d bytes", start, end, len(e.file))
		return nil, errTransfer
	}
	data := append([]byte(nil), e.file[start:end]...)
	switch t.how {
	case fail: // data that must not be used
		if int(start)/e.bs%2 == 1 {
			return data, errPassing
		}
		return data, errTransfer
	case corrupt:
		data[len(data)-1] ^= 0x55
	case empty:
		return nil, errTransfer
	case none:
		return nil, nil
	case longer, blockMore:
		n := 1
		if t.how == blockMore {
			n = e.bs
		}
		for o := int(end); n > 0; n-- {
			if o < len(e.file) {
				data = append(data, e.file[o])
			} else {
				data = append(data, 'x')
			}
			o++
		}
	}
	e.bytes += int64(len(data))
	return data, nil
}

func (r *bsRequester) IsFatal(e error) bool { return e != errPassing }

type bsVerifier struct{ e *bsEnv }

func (v *bsVerifier) VerifyBlockRange(start uint, data []byte) bool {
	e := v.e
	o := int(start) * e.bs
	return len(data) > 0 && o+len(data) <= len(e.file) && bytes.Equal(e.file[o:o+len(data)], data)
}

func (e *bsEnv) start(max int) {
	e.frozen = -1
	var verifier blocksources.BlockVerifier = &bsVerifier{e}
	if e.real {
		var sums chunks.StrongChecksumGetter
		for o := 0; o < len(e.file); o += e.bs {
			sum := md5.Sum(cut(e.file, int64(o), int64(o+e.bs)))
			sums = append(sums, chunks.ChunkChecksum{StrongChecksum: sum[:]})
		}
		verifier = &filechecksum.HashVerifier{BlockSize: uint(e.bs), Hash: md5.New(), BlockChecksumGetter: sums}
	}
	e.src = blocksources.NewBlockSourceBase(
		&bsRequester{e},
		&blocksources.FixedSizeBlockResolver{BlockSize: uint64(e.bs), FileSize: int64(len(e.file)), MaxDesiredRequestSize: uint64(max)},
		verifier, e.maxConc, 1<<20)
}

func (e *bsEnv) request() {
	r := e.ranges[e.requested]
	e.requested++
	vs.Go2(func() {
		err := e.src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: r.a, EndBlock: r.b, BlockSize: int64(e.bs)})
		if err != nil {
			e.reqErr++
		}
		e.reqDone++
	})
}

func (e *bsEnv) take() {
	s := vs.Select(true, vs.RecvCase(e.src.GetResultChannel()))
	if s.I == 0 {
		v, ok := vs.SelVal2(e.src.GetResultChannel(), s)
		if !ok {
			e.resClosed = true
			return
		}
		e.got = append(e.got, v)
	}
}

func (e *bsEnv) takeErr() {
	s := vs.Select(true, vs.RecvCase(e.src.EncounteredError()))
	if s.I == 0 {
		v, ok := vs.SelVal2(e.src.EncounteredError(), s)
		if !ok {
			e.errClosed = true
			return
		}
		e.errs = append(e.errs, v)
	}
}

func (e *bsEnv) doClose() {
	e.closing++
	vs.Go2(func() {
		e.src.Close()
		e.closeRet++
	})
}

type event struct {
	name string
	do   func()
}

// events lists what can happen now, in a fixed order.
func (e *bsEnv) events() (ev []event) {
	if e.takes {
		if !e.resClosed && vs.Ready(e.src.GetResultChannel()) {
			ev = append(ev, event{"take", e.take})
		}
		if !e.errClosed && vs.Ready(e.src.EncounteredError()) {
			ev = append(ev, event{"takeerr", e.takeErr})
		}
	}
	for i, t := range e.transfers {
		if t.done {
			continue
		}
		for _, f := range e.faults {
			ev = append(ev, event{fmt.Sprintf("end%d/%d", i, f), func() {
				t.done, t.how = true, f
				t.q.WakeAll()
			}})
		}
	}
	if e.requested < len(e.ranges) && e.requested == e.reqDone {
		ev = append(ev, event{fmt.Sprintf("request%d", e.requested), e.request})
	}
	if e.closing < e.closes {
		ev = append(ev, event{"close", e.doClose})
	}
	return ev
}

// settle waits until nothing runs and notes what the source must have observed.
func (e *bsEnv) settle() {
	vs.Quiesce()
	if e.frozen < 0 {
		for _, t := range e.transfers {
			if t.done && t.how != ok {
				e.failedAt = true
			}
		}
		if e.failedAt || e.closeRet > 0 {
			e.frozen = len(e.transfers)
		}
	}
}

func (e *bsEnv) step() bool {
	e.settle()
	ev := e.events()
	if len(ev) == 0 {
		return false
	}
	k := vs.Choose(len(ev), 0)
	vs.Logf("event %s", ev[k].name)
	e.acts = append(e.acts, ev[k].name)
	ev[k].do()
	e.settle()
	return true
}

func (e *bsEnv) blocks() uint { return uint((len(e.file) + e.bs - 1) / e.bs) }

// delivered checks what the consumer got and returns how often each block was delivered.
func (e *bsEnv) delivered() []int {
	n := make([]int, e.blocks())
	for _, g := range e.got {
		o := int(g.StartBlock) * e.bs
		if len(g.Data) == 0 || o+len(g.Data) > len(e.file) || !bytes.Equal(g.Data, e.file[o:o+len(g.Data)]) {
			eng.Failf("response for block %d has wrong data %q", g.StartBlock, g.Data)
			continue
		}
		if len(g.Data)%e.bs != 0 && o+len(g.Data) != len(e.file) {
			eng.Failf("response for block %d ends inside a block", g.StartBlock)
		}
		for k := 0; k < len(g.Data); k += e.bs {
			n[int(g.StartBlock)+k/e.bs]++
		}
	}
	return n
}

func (e *bsEnv) outcome() {
	var s []string
	for _, g := range e.got {
		s = append(s, fmt.Sprintf("%d+%d", g.StartBlock, len(g.Data)))
	}
	vs.Outcome("%s|%s errs=%d", strings.Join(e.acts, ","), strings.Join(s, ","), len(e.errs))
}

func rangesKey(r []rng) string {
	var s []string
	for _, x := range r {
		s = append(s, fmt.Sprintf("%d-%d", x.a, x.b))
	}
	return strings.Join(s, ",")
}

// file with distinct blocks; the last block is short.
func bsFile(blocks, bs int, short bool) []byte {
	n := blocks * bs
	if short && bs > 1 {
		n--
	}
	f := make([]byte, n)
	for i := range f {
		f[i] = byte('A' + i)
	}
	return f
}

func permute(r []rng, f func([]rng)) {
	var rec func(k int)
	p := append([]rng(nil), r...)
	rec = func(k int) {
		if k == len(p) {
			f(append([]rng(nil), p...))
			return
		}
		for i := k; i < len(p); i++ {
			// keep the remaining ones in ascending order, so that the order of the permutations is lexicographic
			x := p[i]
			copy(p[k+1:i+1], p[k:i])
			p[k] = x
			rec(k + 1)
			x = p[k]
			copy(p[k:i], p[k+1:i+1])
			p[i] = x
		}
	}
	rec(0)
}

func ascending(r []rng) bool {
	for i := 1; i < len(r); i++ {
		if r[i].a < r[i-1].a {
			return false
		}
	}
	return true
}

// partitions of blocks 0..n-1 into disjoint ranges (some blocks not requested).
func rangeSets(n uint, max int, f func([]rng)) {
	var rec func(from uint, cur []rng)
	rec = func(from uint, cur []rng) {
		if len(cur) > 0 {
			f(cur)
		}
		if len(cur) == max {
			return
		}
		for a := from; a < n; a++ {
			for b := a; b < n; b++ {
				rec(b+1, append(cur[:len(cur):len(cur)], rng{a, b}))
			}
		}
	}
	rec(0, nil)
}

// overlapping lists k ranges of blocks 0..n-1, of which some overlap.
func overlapping(n uint, k int, f func([]rng)) {
	var all []rng
	for a := uint(0); a < n; a++ {
		for b := a; b < n; b++ {
			all = append(all, rng{a, b})
		}
	}
	tuples(k, len(all), func(t []int) {
		var rs []rng
		overlap := false
		for _, i := range t {
			for _, r := range rs {
				overlap = overlap || all[i].a <= r.b && r.a <= all[i].b
			}
			rs = append(rs, all[i])
		}
		if overlap {
			f(rs)
		}
	})
}

func (e *bsEnv) finishC08(asc bool) {
	n := e.delivered()
	want := make([]int, e.blocks())
	total := int64(0)
	for _, r := range e.ranges {
		for b := r.a; b <= r.b; b++ {
			want[b]++
		}
	}
	for b := range n {
		if n[b] != want[b] {
			eng.Failf("block %d was delivered %d times and requested %d times (got %s)", b, n[b], want[b], strings.Join(e.acts, ","))
		}
	}
	for _, g := range e.got {
		total += int64(len(g.Data))
	}
	if len(e.errs) > 0 {
		eng.Failf("error without a failure: %v", e.errs[0])
	}
	if e.resClosed || e.errClosed {
		eng.Failf("the source closed its channels while in use")
	}
	if asc {
		for i := 1; i < len(e.got); i++ {
			if e.got[i].StartBlock <= e.got[i-1].StartBlock {
				eng.Failf("ranges were requested in ascending order and delivered out of order: block %d after %d", e.got[i].StartBlock, e.got[i-1].StartBlock)
			}
		}
	}
	if e.peak > e.maxConc {
		eng.Failf("%d simultaneous transfers, limit %d", e.peak, e.maxConc)
	}
	if got := e.src.ReadBytes(); got != e.bytes {
		eng.Failf("ReadBytes says %d, transferred %d", got, e.bytes)
	}
	if total != e.bytes {
		eng.Failf("transferred %d bytes, delivered %d", e.bytes, total)
	}
	e.outcome()
}

func c08(tier string, emit func(eng.Case)) {
	quick := tier == "quick"
	type cfg struct {
		blocks uint
		maxR   int
		conc   int
		max    int // desired request size
		bound  int32
		mask   uint32
	}
	cfgs := []cfg{
		{4, 3, 1, 0, 1, 0}, {4, 3, 2, 0, 0, 0}, {4, 3, 3, 0, 0, 0},
		{4, 2, 2, 2, 0, 0}, {5, 1, 3, 2, 0, 0}, {5, 1, 2, 4, 0, 0},
		{3, 2, 2, 0, 2, 0}, {2, 2, 2, 0, 2, 1 << 1},
	}
	if !quick {
		cfgs = []cfg{
			{5, 4, 1, 0, 1, 0}, {5, 3, 2, 0, 1, 0}, {5, 4, 2, 0, 0, 0}, {5, 4, 3, 0, 0, 0}, {4, 4, 4, 0, 0, 0},
			{5, 2, 2, 2, 0, 0}, {5, 2, 3, 4, 0, 0}, {6, 1, 4, 2, 0, 0},
			{3, 3, 2, 0, 2, 0}, {3, 2, 2, 0, 3, 0}, {2, 2, 2, 0, 3, 1 << 1}, {3, 3, 2, 0, 2, 1 << 1},
		}
	}
	for _, c := range cfgs {
		rangeSets(c.blocks, c.maxR, func(set []rng) {
			set = append([]rng(nil), set...)
			permute(set, func(rs []rng) {
				if quick && c.bound > 0 && len(rs) > 2 && c.mask != 0 {
					return
				}
				emit(eng.Case{
					Key:   fmt.Sprintf("b%d r%s c%d m%d p%d k%d", c.blocks, rangesKey(rs), c.conc, c.max, c.bound, c.mask),
					Bound: c.bound,
					Opts:  vs.Opts{Mask: c.mask, Blocked: 1, MaxSteps: 200000},
					Body: func() {
						e := &bsEnv{file: bsFile(int(c.blocks), 2, true), bs: 2, ranges: rs, faults: []int{ok}, maxConc: c.conc, takes: true}
						e.start(c.max)
						for e.step() {
						}
						e.finishC08(ascending(rs))
						e.doClose()
						vs.Quiesce()
						if e.closeRet != 1 {
							eng.Failf("Close of an idle source does not return")
						}
						if o := vs.Others(); len(o) > 0 {
							eng.Failf("left behind after Close: %v", o)
						}
					},
				})
			})
		})
	}
	// the same blocks more than once
	for _, c := range []struct {
		n, k, conc int // blocks, ranges, transfers at once
		bound      int32
	}{{2, 2, 1, 1}, {2, 2, 2, 1}, {2, 3, 1, 0}, {2, 3, 2, 0}, {2, 4, 1, 0}, {3, 3, 1, 0}, {3, 3, 2, 0}, {3, 3, 3, 0}, {2, 4, 2, 0}, {2, 5, 1, 0}} {
		if quick && (c.n == 3 && c.conc == 3 || c.k > 3 && c.conc > 1 || c.k > 4) {
			continue
		}
		overlapping(uint(c.n), c.k, func(rs []rng) {
			emit(eng.Case{
				Key: fmt.Sprintf("again b%d r%s c%d", c.n, rangesKey(rs), c.conc), Bound: c.bound,
				Opts: vs.Opts{Blocked: 1, MaxSteps: 200000},
				Body: func() {
					e := &bsEnv{file: bsFile(c.n, 2, true), bs: 2, ranges: rs, faults: []int{ok}, maxConc: c.conc, takes: true}
					e.start(0)
					for e.step() {
					}
					e.finishC08(false)
					// range by range
					for _, r := range rs {
						e.bytes -= int64(len(e.file[r.a*2 : min(int(r.b+1)*2, len(e.file))]))
						for i, g := range e.got {
							if g.StartBlock == r.a && nblocks(len(g.Data), 2) == int(r.b-r.a+1) {
								e.got = append(e.got[:i:i], e.got[i+1:]...)
								break
							}
						}
					}
					if len(e.got) > 0 || e.bytes != 0 {
						eng.Failf("of the responses, %d answer no request", len(e.got))
					}
				},
			})
		})
	}
	// long queues, and many transfers at once
	for _, c := range []struct{ blocks, per, conc, max int }{
		{300, 1, 64, 0}, {300, 1, 65, 0}, {300, 3, 100, 2}, {600, 2, 256, 0}, {1100, 1, 1000, 0},
		{300, 300, 300, 2}, {1500, 1, 1, 0}, {5000, 5000, 3, 2}, {9000, 3000, 7, 2}, {1500, 2, 2, 0}, {70000, 70000, 1000, 2},
	} {
		for _, down := range []bool{false, true} {
			emit(eng.Case{
				Key:  fmt.Sprintf("queue-%d-%d-c%d-m%d-%v", c.blocks, c.per, c.conc, c.max, down),
				Opts: vs.Opts{Blocked: 1, MaxSteps: 1 << 30},
				Body: func() { longQueue(c.blocks, c.per, c.conc, c.max, down) },
			})
		}
	}
	// sources that end inside the last block, and that deliver a lot
	for _, c := range []struct {
		size, piece int64
		n           int
	}{{1, 4, 1}, {3, 4, 1}, {5, 4, 2}, {11, 4, 3}, {9 << 29, 1 << 30, 5}, {3<<31 + 1, 1 << 31, 4}} {
		for conc := 1; conc <= 2; conc++ {
			for _, sized := range []bool{false, true} {
				emit(eng.Case{
					Key:  fmt.Sprintf("total-%d-%d-c%d-%v", c.size, c.piece, conc, sized),
					Opts: vs.Opts{Blocked: 1, MaxSteps: 200000},
					Body: func() { deliveredTotal(c.size, c.piece, c.n, conc, sized) },
				})
			}
		}
	}
	// transfers that end at any time, and the real verifier
	for n := 2; n <= pick(tier, 3, 4); n++ {
		for conc := 1; conc <= n; conc++ {
			for _, m := range []struct {
				mask  uint32
				bound int32
			}{{0, int32(pick(tier, 2, 3))}, {1 << 3, int32(pick(tier, 1, 2))}, {1<<1 | 1<<3, 1}} {
				if n == 4 && m.bound > 1 {
					m.bound--
				}
				for _, order := range pick(tier, []string{"up", "down", "two"}, []string{"up", "down", "rotated", "two"}) {
					emit(eng.Case{
						Key: fmt.Sprintf("together-n%d-c%d-%s-k%d-p%d", n, conc, order, m.mask, m.bound), Bound: m.bound, Split: m.bound > 1,
						Opts: vs.Opts{Mask: m.mask, Blocked: 1, MaxSteps: 200000},
						Body: func() { together(n, conc, order) },
					})
				}
			}
		}
	}
}

// longQueue requests all blocks in ranges of some, and only then do transfers end.
func longQueue(blocks, per, conc, max int, down bool) {
	e := &bsEnv{file: bsFile(blocks, 2, true), bs: 2, maxConc: conc}
	e.start(max)
	for b := 0; b < blocks; b += per {
		r := rng{uint(b), uint(min(b+per, blocks) - 1)}
		if down {
			e.ranges = append([]rng{r}, e.ranges...)
		} else {
			e.ranges = append(e.ranges, r)
		}
	}
	vs.Go2(func() {
		for _, r := range e.ranges {
			if err := e.src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: r.a, EndBlock: r.b, BlockSize: 2}); err != nil {
				eng.Failf("request of block %d: %v", r.a, err)
			}
			e.reqDone++
		}
	})
	vs.Quiesce()
	if e.reqDone != len(e.ranges) {
		eng.Failf("%d of %d requests are accepted", e.reqDone, len(e.ranges))
		return
	}
	e.watch()
	for i := 0; i < len(e.transfers); {
		// all that are running end
		for ; i < len(e.transfers); i++ {
			t := e.transfers[i]
			t.done = true
			t.q.WakeAll()
		}
		vs.Quiesce()
	}
	e.finishC08(!down)
	vs.Fixed(true)
	e.doClose()
	vs.Quiesce()
}

// together requests single blocks, whose transfers end at once, from a source with a real verifier.
func together(n, conc int, order string) {
	e := &bsEnv{file: bsFile(n, 2, true), bs: 2, maxConc: conc, frozen: -1}
	e.auto = make([]int, n)
	sum := summaryOf(e.file, 2)
	e.src = blocksources.NewBlockSourceBase(
		&bsRequester{e}, blocksources.MakeFileSizedBlockResolver(2, int64(len(e.file))),
		&filechecksum.HashVerifier{Hash: md5.New(), BlockSize: 2, BlockChecksumGetter: sum}, conc, 1<<20)
	for b := 0; b < n; b++ {
		k := uint(b)
		if order == "down" {
			k = uint(n - 1 - b)
		} else if order == "rotated" {
			k = uint((b + 1) % n)
		}
		e.ranges = append(e.ranges, rng{k, k})
	}
	ask := func(l []rng) {
		for _, r := range l {
			if err := e.src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: r.a, EndBlock: r.b, BlockSize: 2}); err != nil {
				eng.Failf("request of block %d: %v", r.a, err)
			}
		}
	}
	if order == "two" { // two requesters
		vs.Go2(func() { ask(e.ranges[:n/2]) })
		vs.Go2(func() { ask(e.ranges[n/2:]) })
	} else {
		vs.Go2(func() { ask(e.ranges) })
	}
	for len(e.got) < n {
		s := vs.Select(false, vs.RecvCase(e.src.GetResultChannel()), vs.RecvCase(e.src.EncounteredError()))
		if s.I != 0 {
			v, _ := vs.SelVal2(e.src.EncounteredError(), s)
			eng.Failf("error without a failure: %v", v)
			return
		}
		v, good := vs.SelVal2(e.src.GetResultChannel(), s)
		if !good {
			eng.Failf("the source closed its channels while in use")
			return
		}
		e.got = append(e.got, v)
	}
	vs.Quiesce()
	e.finishC08(order == "up")
}

// zeros are as many zero bytes as anybody needs; nobody touches them, so that they take no memory
var zeros = sync.OnceValue(func() []byte {
	b, err := syscall.Mmap(-1, 0, 1<<31, syscall.PROT_READ, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	if err != nil {
		panic(err)
	}
	return b
})

type zeroRequester struct {
	size, given int64
}

func (r *zeroRequester) DoRequest(start, end int64) ([]byte, error) {
	end = min(end, r.size)
	if start < 0 || start >= end {
		eng.Failf("bytes %d-%d of a file of %d", start, end, r.size)
		return nil, errTransfer
	}
	r.given += end - start
	return zeros()[:end-start], nil
}

func (r *zeroRequester) IsFatal(error) bool { return true }

// deliveredTotal requests n blocks one by one, of which the last one may be short.
func deliveredTotal(size, piece int64, n, conc int, sized bool) {
	r := &zeroRequester{size: size}
	resolver := blocksources.MakeNullFixedSizeResolver(uint64(piece))
	if sized {
		resolver = blocksources.MakeFileSizedBlockResolver(uint64(piece), size)
	}
	src := blocksources.NewBlockSourceBase(r, resolver, nil, conc, 1<<40)
	vs.Go2(func() {
		for b := 0; b < n; b++ {
			src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: uint(b), EndBlock: uint(b), BlockSize: piece})
		}
	})
	got := int64(0)
	for b := 0; b < n; b++ {
		s := vs.Select(false, vs.RecvCase(src.GetResultChannel()), vs.RecvCase(src.EncounteredError()))
		if s.I != 0 {
			v, _ := vs.SelVal2(src.EncounteredError(), s)
			eng.Failf("%d bytes in blocks of %d: error without a failure: %v", size, piece, v)
			return
		}
		v, good := vs.SelVal2(src.GetResultChannel(), s)
		if want := min(piece, size-int64(b)*piece); !good || v.StartBlock != uint(b) || int64(len(v.Data)) != want {
			eng.Failf("%d bytes in blocks of %d: response %d is block %d with %d bytes", size, piece, b, v.StartBlock, len(v.Data))
			return
		}
		got += int64(len(v.Data))
	}
	vs.Quiesce()
	if rb := src.ReadBytes(); rb != r.given || got != size || r.given != size {
		eng.Failf("%d bytes in blocks of %d: transferred %d, delivered %d, ReadBytes says %d", size, piece, r.given, got, rb)
	}
	eng.Outcome(fmt.Sprint(size, piece, n, conc, sized))
	vs.Fixed(true)
	src.Close()
	vs.Quiesce()
}

func init() {
	eng.Register(&eng.Prop{
		ID:    "C08",
		Sched: true,
		Gen:   c08,
		Rule:  "case: list of requested block ranges (all orders), concurrency, split size; execution: order of the events request/transfer end/consumer takes and preemptions; distinct: by event order and what was delivered",
	})
}
