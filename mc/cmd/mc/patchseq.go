package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/patcher"
	"github.com/Redundancy/go-sync/patcher/sequential"
	"verif/mc/eng"
	"verif/mc/vs"
)

// ---- C07: sequential assembly ----

// how the source answers a request
const (
	sOK = iota
	sRefuse
	sError
	sCloseResult
	sCloseError
	sCloseBoth
	sWrongBlockUp
	sWrongBlockDown
	sOneShort
	sBlockShort
	sEmpty
	sOneLong
	sBlockLong
	sErrorNoise // an error and, at the same time, the right data
	sLate       // right, but only after everybody else waits
	sKinds
)

var sNames = [...]string{"ok", "refuse", "error", "closeresult", "closeerror", "closeboth", "blockup", "blockdown", "oneshort", "blockshort", "empty", "onelong", "blocklong", "errornoise", "late"}

// fakeSource is a block source under control of the explorer.
type fakeSource struct {
	ref      []byte
	bs       int
	faults   map[int]int // request -> kind
	requests []patcher.MissingBlockSpan
	results  chan patcher.BlockReponse
	errs     chan error
}

var errSource = errors.New("source-failed-99")

func newFakeSource(ref []byte, bs int) *fakeSource {
	return &fakeSource{ref: ref, bs: bs, faults: map[int]int{}, results: make(chan patcher.BlockReponse), errs: make(chan error)}
}

func (s *fakeSource) GetResultChannel() <-chan patcher.BlockReponse { return s.results }
func (s *fakeSource) EncounteredError() <-chan error                { return s.errs }

func (s *fakeSource) span(a, b uint) []byte {
	x, y := int(a)*s.bs, int(b+1)*s.bs
	if y > len(s.ref) {
		y = len(s.ref)
	}
	if x > y {
		return nil
	}
	return append([]byte(nil), s.ref[x:y]...)
}

func (s *fakeSource) RequestBlocks(m patcher.MissingBlockSpan) error {
	k := len(s.requests)
	s.requests = append(s.requests, m)
	kind := s.faults[k]
	if kind == sRefuse {
		return errSource
	}
	data := s.span(m.StartBlock, m.EndBlock)
	start := m.StartBlock
	switch kind {
	case sWrongBlockUp:
		start++
	case sWrongBlockDown:
		start--
	case sOneShort:
		data = data[:len(data)-1]
	case sBlockShort:
		n := len(data) - s.bs
		if n < 0 {
			n = 0
		}
		data = data[:n]
	case sEmpty:
		data = nil
	case sOneLong:
		data = append(data, '+')
	case sBlockLong:
		data = append(data, bytes.Repeat([]byte{'+'}, s.bs)...)
	}
	vs.Go2(func() {
		switch kind {
		case sError:
			vs.Send(s.errs, errSource)
		case sCloseResult:
			vs.Close(s.results)
		case sCloseError:
			vs.Close(s.errs)
		case sCloseBoth:
			vs.Close(s.errs)
			vs.Close(s.results)
		default:
			if kind == sErrorNoise {
				vs.Go2(func() { vs.Send(s.errs, errSource) })
			}
			if kind == sLate {
				vs.Pause()
				vs.Pause()
			}
			vs.Send(s.results, patcher.BlockReponse{StartBlock: start, Data: data})
		}
	})
	return nil
}

// fakeLocal is the local file.
type fakeLocal struct {
	base     int64 // offset of the first byte of data; zeros before
	data     []byte
	pos      int64
	step     int // most bytes per read (0: any)
	with     bool
	seeks    int
	failSeek int   // number of the seek that fails (-1: none)
	failAt   int64 // offset at which reading fails (-1: none)
	err      error
	hit      bool // the failure was seen
	at       []int64
}

func (f *fakeLocal) Seek(o int64, whence int) (int64, error) {
	vs.Y(31)
	if f.seeks == f.failSeek {
		f.hit = true
		return 0, f.err
	}
	f.seeks++
	switch whence {
	case io.SeekStart:
		f.pos = o
	case io.SeekCurrent:
		f.pos += o
	case io.SeekEnd:
		f.pos = f.base + int64(len(f.data)) + o
	}
	if f.pos < 0 {
		return 0, errors.New("negative position")
	}
	f.at = append(f.at, f.pos)
	return f.pos, nil
}

func (f *fakeLocal) Read(p []byte) (int, error) {
	vs.Y(31)
	if len(p) == 0 {
		return 0, nil
	}
	if f.failAt >= 0 && f.pos >= f.failAt {
		f.hit = true
		return 0, f.err
	}
	end := f.base + int64(len(f.data))
	if f.pos >= end {
		return 0, io.EOF
	}
	n := int64(len(p))
	if f.step > 0 && n > int64(f.step) {
		n = int64(f.step)
	}
	if f.pos+n > end {
		n = end - f.pos
	}
	if f.failAt >= 0 && f.pos+n > f.failAt {
		n = f.failAt - f.pos
	}
	for i := int64(0); i < n; i++ {
		if o := f.pos + i - f.base; o >= 0 {
			p[i] = f.data[o]
		} else {
			p[i] = 0
		}
	}
	f.pos += n
	if f.with && f.pos == end {
		return int(n), io.EOF
	}
	if f.with && f.failAt >= 0 && f.pos == f.failAt {
		f.hit = true
		return int(n), f.err
	}
	return int(n), nil
}

// plan is a division of the reference into spans.
type plan struct {
	ref     []byte
	bs      int
	local   []byte
	base    int64
	found   []patcher.FoundBlockSpan
	missing []patcher.MissingBlockSpan
}

// makePlan turns a description of the blocks (0 remote, 1 remote and starts a span, 2 local, 3 local and starts a span)
// into a plan. The local spans lie in the local file in reverse order with gaps between them.
func makePlan(kinds []int, bs, cut int, base int64) *plan {
	p := &plan{bs: bs, base: base}
	n := len(kinds)*bs - cut
	p.ref = bytesOf(n, func(i int) byte { return byte('A' + i) })
	for b, k := range kinds {
		local := k >= 2
		starts := k&1 == 1 || b == 0 || kinds[b-1] >= 2 != local
		switch {
		case local && starts:
			p.found = append(p.found, patcher.FoundBlockSpan{StartBlock: uint(b), EndBlock: uint(b), BlockSize: int64(bs)})
		case local:
			p.found[len(p.found)-1].EndBlock++
		case starts:
			p.missing = append(p.missing, patcher.MissingBlockSpan{StartBlock: uint(b), EndBlock: uint(b), BlockSize: int64(bs)})
		default:
			p.missing[len(p.missing)-1].EndBlock++
		}
	}
	// the span with the last block comes last, as it may be short
	order := make([]int, len(p.found))
	for i := range order {
		order[i] = len(p.found) - 1 - i
	}
	last := -1
	if len(p.found) > 0 && int(p.found[len(p.found)-1].EndBlock) == len(kinds)-1 {
		last = len(p.found) - 1
		order = append(order[1:], last)
	}
	for _, i := range order {
		f := &p.found[i]
		p.local = append(p.local, '~')
		f.MatchOffset = base + int64(len(p.local))
		e := int(f.EndBlock+1) * bs
		if e > n {
			e = n
		}
		p.local = append(p.local, p.ref[int(f.StartBlock)*bs:e]...)
	}
	if last < 0 {
		p.local = append(p.local, '~')
	}
	return p
}

func (p *plan) String() string {
	s := ""
	for _, f := range p.found {
		s += fmt.Sprintf(" local %d-%d@%d", f.StartBlock, f.EndBlock, f.MatchOffset)
	}
	for _, f := range p.missing {
		s += fmt.Sprintf(" remote %d-%d", f.StartBlock, f.EndBlock)
	}
	return fmt.Sprintf("reference of %d bytes, block size %d:%s", len(p.ref), p.bs, s)
}

type patchRun struct {
	p       *plan
	src     *fakeSource
	loc     *fakeLocal
	out     *sink
	what    string
	mustErr bool // an error must be returned
	mustOK  bool // no error may be returned
}

func (p *plan) run(what string) *patchRun {
	return &patchRun{
		p:    p,
		src:  newFakeSource(p.ref, p.bs),
		loc:  &fakeLocal{base: p.base, data: p.local, failSeek: -1, failAt: -1, err: errBroken},
		out:  &sink{limit: -1},
		what: what,
	}
}

func (r *patchRun) exec() {
	p := r.p
	missing := append([]patcher.MissingBlockSpan(nil), p.missing...)
	found := append([]patcher.FoundBlockSpan(nil), p.found...)
	err := sequential.SequentialPatcher(r.loc, r.src, missing, found, 1<<20, r.out)
	eng.Eval(1)
	switch {
	case err == nil && r.mustErr:
		eng.Failf("%v, %s: success, %d bytes written: %q", p, r.what, len(r.out.buf), r.out.buf)
	case err != nil && r.mustOK:
		eng.Failf("%v, %s: error %v", p, r.what, err)
	case err == nil && !bytes.Equal(r.out.buf, p.ref):
		eng.Failf("%v, %s: success with %q, want %q", p, r.what, r.out.buf, p.ref)
	}
	// what is written before an error is a correct prefix, unless the source lied about data
	vs.Outcome("%v", err == nil)
}

func (p *plan) blocks() uint { return uint(nblocks(len(p.ref), p.bs)) }

// faulty emits a run for every fault.
func (p *plan) faults(f func(*patchRun)) {
	ok := func(what string, mod func(r *patchRun)) {
		r := p.run(what)
		r.mustOK = true
		mod(r)
		f(r)
	}
	bad := func(what string, mod func(r *patchRun)) {
		r := p.run(what)
		r.mustErr = true
		mod(r)
		f(r)
	}
	ok("no fault", func(r *patchRun) {})
	ok("reads of one byte", func(r *patchRun) { r.loc.step = 1 })
	ok("end of file with the last bytes", func(r *patchRun) { r.loc.with = true })
	for k := range p.missing {
		for kind := sRefuse; kind < sKinds; kind++ {
			what := fmt.Sprintf("request %d: %s", k, sNames[kind])
			set := func(r *patchRun) { r.src.faults[k] = kind }
			m := p.missing[k]
			last := m.EndBlock == p.blocks()-1
			// bytes of the last block of this span
			tail := len(blockOf(p.ref, p.bs, int(m.EndBlock)))
			switch kind {
			case sLate:
				ok(what, set)
			case sErrorNoise:
				r := p.run(what) // the error or the data may be seen first
				set(r)
				f(r)
			case sOneShort:
				if last && tail > 1 {
					continue // a shorter last block cannot be told apart
				}
				bad(what, set)
			case sOneLong:
				if last && tail < p.bs {
					continue
				}
				bad(what, set)
			default:
				bad(what, set)
			}
		}
	}
	for k := range p.found {
		for _, e := range append([]error{io.EOF}, readErrors...) {
			bad(fmt.Sprintf("seek %d fails with %v", k, e), func(r *patchRun) { r.loc.failSeek, r.loc.err = k, e })
		}
		s := p.found[k]
		start, end := s.MatchOffset, s.MatchOffset+int64(int(s.EndBlock-s.StartBlock+1)*p.bs)
		if l := p.base + int64(len(p.local)); end > l {
			end = l
		}
		for at := start; at < end; at++ {
			for _, e := range readErrors {
				for step := 0; step < 2; step++ {
					for _, with := range []bool{false, true} {
						if with && at == start {
							continue
						}
						bad(fmt.Sprintf("reading the local file fails with %v at %d, steps of %d, with data %v", e, at, step, with),
							func(r *patchRun) { r.loc.failAt, r.loc.err, r.loc.step, r.loc.with = at, e, step, with })
					}
				}
			}
			// the local file has become too short
			missing := end - at
			if s.EndBlock == p.blocks()-1 && missing <= int64(p.bs) && at > start {
				continue // like a short last block
			}
			bad(fmt.Sprintf("the local file ends at %d", at), func(r *patchRun) { r.loc.data = r.loc.data[:at-p.base] })
			bad(fmt.Sprintf("the local file ends at %d, steps of 1, end with data", at), func(r *patchRun) {
				r.loc.data = r.loc.data[:at-p.base]
				r.loc.step, r.loc.with = 1, true
			})
		}
	}
	for l := 0; l < len(p.ref); l++ {
		for _, e := range writeErrors {
			bad(fmt.Sprintf("the output fails with %v after %d bytes", e, l), func(r *patchRun) { r.out.limit, r.out.err = l, e })
			bad(fmt.Sprintf("the output takes byte %d and what follows it, and fails with %v", l, e), func(r *patchRun) { r.out.limit, r.out.err, r.out.all = l, e, true })
		}
	}
}

func c07(tier string, emit func(eng.Case)) {
	quick := tier == "quick"
	type cfg struct {
		bs, cut int
		base    int64
	}
	cfgs := []cfg{{1, 0, 0}, {2, 0, 0}, {2, 1, 0}, {4, 0, 3}, {4, 1, 0}, {4, 3, 0}, {3, 1, 1<<31 - 2}, {2, 0, 1 << 33}}
	maxB := pick(tier, 4, 6)
	for _, c := range cfgs {
		if c.base > 4 && quick {
			maxB = 3
		}
		for n := 1; n <= maxB; n++ {
			tuples(n, 4, func(t []int) {
				// the mark for the start of a span only matters between blocks of the same kind
				for b := range t {
					if t[b]&1 == 1 && (b == 0 || t[b-1]>>1 != t[b]>>1) {
						return
					}
				}
				kinds := append([]int(nil), t...)
				p := makePlan(kinds, c.bs, c.cut, c.base)
				batch(emit, fmt.Sprintf("plan-bs%d-cut%d-base%d-%v", c.bs, c.cut, c.base, fmt.Sprint(kinds)), func() {
					p.faults(func(r *patchRun) {
						if len(vs.Others()) > 2000 {
							return
						}
						r.exec()
						eng.Outcome(p.String() + r.what)
					})
				})
			})
		}
	}
	// two faults
	if !quick {
		for _, kinds := range [][]int{{0, 2, 0}, {0, 1, 2}, {2, 0, 3}, {0, 2, 3, 0}} {
			p := makePlan(kinds, 2, 1, 0)
			var all []*patchRun
			p.faults(func(r *patchRun) { all = append(all, r) })
			for i := range all {
				batch(emit, fmt.Sprintf("pairs-%v-%d", kinds, i), func() {
					for j := range all {
						a, b := all[i], all[j]
						r := p.run(a.what + " and " + b.what)
						r.mustErr = (a.mustErr || b.mustErr) && !(a.what == b.what)
						for _, x := range []*patchRun{a, b} {
							for k, v := range x.src.faults {
								r.src.faults[k] = v
							}
							if x.loc.failSeek >= 0 {
								r.loc.failSeek, r.loc.err = x.loc.failSeek, x.loc.err
							}
							if x.loc.failAt >= 0 {
								r.loc.failAt = x.loc.failAt
							}
							if x.out.limit >= 0 {
								r.out.limit = x.out.limit
							}
							if len(x.loc.data) < len(r.loc.data) {
								r.loc.data = x.loc.data
							}
						}
						if r.src.faults != nil && (len(a.src.faults) > 0 && len(b.src.faults) > 0) {
							r.mustErr = false // one may hide the other
						}
						r.exec()
					}
				})
			}
		}
	}
	// long files and spans
	for _, nb := range []int{63, 64, 65, 256, 257, 1000} {
		for pat := 0; pat < 5; pat++ {
			batch(emit, fmt.Sprintf("long-%d-%d", nb, pat), func() {
				kinds := make([]int, nb)
				for b := range kinds {
					switch pat {
					case 0:
						kinds[b] = b % 2 * 2
					case 1:
						kinds[b] = b / 64 % 2 * 2
					case 2:
						kinds[b] = 2
					case 3:
						kinds[b] = 2 + b%2
					case 4:
						kinds[b] = b % 3
					}
				}
				for _, c := range []cfg{{8, 0, 0}, {8, 3, 1 << 32}, {1000, 1, 0}} {
					p := makePlan(kinds, c.bs, c.cut, c.base)
					r := p.run("no fault")
					r.mustOK = true
					r.exec()
					for k := 0; k < len(p.missing); k += 1 + len(p.missing)/3 {
						for _, kind := range []int{sRefuse, sError, sCloseResult, sWrongBlockUp, sBlockShort, sBlockLong} {
							r := p.run(fmt.Sprintf("request %d: %s", k, sNames[kind]))
							r.src.faults[k] = kind
							r.mustErr = true
							r.exec()
						}
					}
					r = p.run("output fails")
					r.out.limit = len(p.ref) - 1
					r.mustErr = true
					r.exec()
				}
			})
		}
	}
	// schedules of patcher and source
	for _, kinds := range [][]int{{0}, {2, 0}, {0, 1}, {0, 2, 1}, {0, 2, 0}} {
		p := makePlan(kinds, 2, 1, 0)
		for k := range p.missing {
			for kind := 0; kind < sKinds; kind++ {
				emit(eng.Case{Key: fmt.Sprintf("schedules-%v-%d-%s", kinds, k, sNames[kind]), Bound: int32(pick(tier, 3, 4)), Opts: vs.Opts{Mask: 1 << 4, Blocked: 1}, Body: func() {
					r := p.run(fmt.Sprintf("request %d: %s", k, sNames[kind]))
					r.src.faults[k] = kind
					r.mustOK = kind == sOK || kind == sLate
					m := p.missing[k]
					last := m.EndBlock == p.blocks()-1
					r.mustErr = !r.mustOK && kind != sErrorNoise && !(last && (kind == sOneLong || kind == sOneShort && len(p.ref)%p.bs > 1))
					if last && kind == sOneLong {
						return
					}
					r.exec()
				}})
			}
		}
	}
	c07rsync(tier, emit)
	c07huge(tier, emit)
	// a source that answers a span of blocks in several parts
	for _, parts := range [][]int{{1, 1}} {
		batch(emit, fmt.Sprintf("split-answer-%d-%d", parts[0], parts[1]), func() {
			p := makePlan([]int{0, 0}, 2, 0, 0)
			src := &splitSource{newFakeSource(p.ref, p.bs)}
			out := &sink{limit: -1}
			err := sequential.SequentialPatcher(&fakeLocal{failSeek: -1, failAt: -1}, src, p.missing, p.found, 1<<20, out)
			if err != nil || !bytes.Equal(out.buf, p.ref) {
				eng.Failf("a source that answers blocks 0-1 one by one: %v, %q", err, out.buf)
			}
		})
	}
	batch(emit, "no-source", func() {
		p := makePlan([]int{0}, 2, 0, 0)
		if err := sequential.SequentialPatcher(&fakeLocal{failSeek: -1, failAt: -1}, nil, p.missing, nil, 0, &sink{limit: -1}); err == nil {
			eng.Failf("success without a source")
		}
	})
	// spans that leave a block out
	batch(emit, "gaps", func() {
		for n := 2; n <= 5; n++ {
			tuples(n, 2, func(t []int) {
				kinds := make([]int, n)
				for i, k := range t {
					kinds[i] = k*2 + 1
				}
				p := makePlan(kinds, 2, 0, 0)
				for drop := 0; drop < n-1; drop++ {
					q := *p
					q.found, q.missing = nil, nil
					for _, f := range p.found {
						if int(f.StartBlock) != drop {
							q.found = append(q.found, f)
						}
					}
					for _, f := range p.missing {
						if int(f.StartBlock) != drop {
							q.missing = append(q.missing, f)
						}
					}
					r := q.run(fmt.Sprintf("block %d is in no span", drop))
					r.mustErr = true
					r.exec()
				}
			})
		}
	})
}

// twoFaced is a local file that is read in full while it is searched, and is shorter when blocks are copied from it.
type twoFaced struct {
	*bytes.Reader
	full *bytes.Reader
}

func (f *twoFaced) ReadAt(b []byte, off int64) (int, error) { return f.full.ReadAt(b, off) }

func (f *twoFaced) Seek(off int64, whence int) (int64, error) {
	if whence == io.SeekEnd {
		off, whence = f.full.Size()+off, io.SeekStart
	}
	return f.Reader.Seek(off, whence)
}

// otherSummary describes another number of blocks and bytes.
type otherSummary struct {
	gosync.FileSummary
	blocks uint
	size   int64
}

func (s *otherSummary) GetBlockCount() uint { return s.blocks }
func (s *otherSummary) GetFileSize() int64  { return s.size }

// c07rsync has faults under a whole patch, which knows the size of the file.
func c07rsync(tier string, emit func(eng.Case)) {
	for _, c := range []struct{ bs, cut int }{{1, 0}, {3, 0}, {4, 1}, {4, 2}, {5, 4}} {
		for n := 1; n <= pick(tier, 3, 5); n++ {
			tuples(n, 2, func(t []int) {
				kinds := make([]int, n)
				for i := range t {
					kinds[i] = t[i] * 2
				}
				p := makePlan(kinds, c.bs, c.cut, 0)
				// what the summary says that the reference has
				blocks, size := nblocks(len(p.ref), p.bs), int64(len(p.ref))
				patch := func(in gosync.ReadSeekerAt, src *fakeSource, out *sink, what string, mustErr, mustOK bool) {
					old := gosync.DefaultConcurrency
					gosync.DefaultConcurrency = 1
					r := &gosync.RSync{Input: in, Source: src, Output: out, Summary: &otherSummary{summaryOf(p.ref, p.bs), uint(blocks), size}}
					err := r.Patch()
					gosync.DefaultConcurrency = old
					eng.Eval(1)
					switch {
					case err == nil && !bytes.Equal(out.buf, p.ref):
						eng.Failf("a patch of a %v, %s: success with %q, want %q", p, what, out.buf, p.ref)
					case err == nil && mustErr:
						eng.Failf("a patch of a %v, %s: success", p, what)
					case err != nil && mustOK:
						eng.Failf("a patch of a %v, %s: %v", p, what, err)
					}
					eng.Outcome(p.String() + "patch" + what)
				}
				batch(emit, fmt.Sprintf("patch-bs%d-cut%d-%v", c.bs, c.cut, fmt.Sprint(kinds)), func() {
					last := len(p.missing) - 1
					patch(bytes.NewReader(p.local), newFakeSource(p.ref, p.bs), &sink{limit: -1}, "no fault", false, true)
					for k := range p.missing {
						for kind := sRefuse; kind < sKinds; kind++ {
							src := newFakeSource(p.ref, p.bs)
							src.faults[k] = kind
							long := kind == sOneLong && k == last && c.cut > 0 // cannot be told apart, and is cut off
							patch(bytes.NewReader(p.local), src, &sink{limit: -1}, fmt.Sprintf("request %d: %s", k, sNames[kind]),
								kind != sLate && kind != sErrorNoise && !long, kind == sLate)
						}
					}
					for k := 0; k <= nblocks(len(p.ref), p.bs)+1; k++ {
						blocks = k
						patch(bytes.NewReader(p.local), newFakeSource(p.ref, p.bs), &sink{limit: -1}, fmt.Sprintf("summary of %d blocks", k), false, k == nblocks(len(p.ref), p.bs))
					}
					blocks--
					for _, more := range []int64{1, int64(p.bs), 1 << 32} {
						size += more
						patch(bytes.NewReader(p.local), newFakeSource(p.ref, p.bs), &sink{limit: -1}, fmt.Sprintf("summary of %d bytes more", more), true, false)
						size -= more
					}
					for l := range p.local {
						in := &twoFaced{bytes.NewReader(p.local[:l]), bytes.NewReader(p.local)}
						patch(in, newFakeSource(p.ref, p.bs), &sink{limit: -1}, fmt.Sprintf("local file cut to %d of %d bytes", l, len(p.local)), false, false)
					}
					for l := range p.ref {
						for _, e := range writeErrors {
							for _, all := range []bool{false, true} {
								patch(bytes.NewReader(p.local), newFakeSource(p.ref, p.bs), &sink{limit: l, err: e, all: all}, fmt.Sprintf("output fails with %v after %d bytes (all taken: %v)", e, l, all), true, false)
							}
						}
					}
				})
			})
		}
	}
}

// splitSource answers each block on its own.
type splitSource struct{ *fakeSource }

func (s *splitSource) RequestBlocks(m patcher.MissingBlockSpan) error {
	vs.Go2(func() {
		for b := m.StartBlock; b <= m.EndBlock; b++ {
			vs.Send(s.results, patcher.BlockReponse{StartBlock: b, Data: s.span(b, b)})
		}
	})
	return nil
}

func init() {
	eng.Register(&eng.Prop{ID: "C07", Gen: c07,
		Rule: "input: division of the blocks into local and remote spans, place and kind of one fault (or none); execution: schedule of patcher and source; distinct: by division and fault",
		Bounds: func(tier string) string {
			return pick(tier, "every division of up to 4 blocks, every single fault at every request, seek and byte; divisions of up to 1000 blocks in patterns; spans of several gigabytes; whole patches with one fault, and with sources of other block counts and sizes; 3 preemptions", "every division of up to 6 blocks, every single fault; pairs of faults for four divisions; spans of several gigabytes; whole patches with one fault, and with sources of other block counts and sizes; 4 preemptions")
		},
		Assume: []string{"a change of the length of the last block of the reference cannot be seen by the patcher and is not counted as a fault", "a source that answers a span in several parts is a known finding"}})
}

// ---- spans of several gigabytes ----

// hugeSeg is a part of the output: a part of the local file, or bytes of the source.
type hugeSeg struct {
	local bool
	off   int64
	n     int64
}

// hugeRun has a local file and an output of any size, whose bytes say only where they come from.
type hugeRun struct {
	size    int64 // of the local file
	pos     int64
	pending []hugeSeg // read and not written yet
	out     []hugeSeg
	failOut int64 // output fails behind so many bytes (-1: never)
	written int64
}

func (h *hugeRun) Seek(o int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		h.pos = o
	case io.SeekCurrent:
		h.pos += o
	case io.SeekEnd:
		h.pos = h.size + o
	}
	if h.pos < 0 {
		return 0, errors.New("negative position")
	}
	h.pending = nil
	return h.pos, nil
}

func addSeg(l []hugeSeg, s hugeSeg) []hugeSeg {
	if k := len(l) - 1; k >= 0 && l[k].local == s.local && (!s.local || l[k].off+l[k].n == s.off) {
		l[k].n += s.n
		return l
	}
	return append(l, s)
}

func (h *hugeRun) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	n := int64(len(p))
	if n > h.size-h.pos {
		n = h.size - h.pos
	}
	if n <= 0 {
		return 0, io.EOF
	}
	for i := range p[:n] {
		p[i] = 0xff
	}
	h.pending = addSeg(h.pending, hugeSeg{true, h.pos, n})
	h.pos += n
	return int(n), nil
}

func (h *hugeRun) Write(p []byte) (int, error) {
	n := int64(len(p))
	if n == 0 {
		return 0, nil
	}
	var err error
	if h.failOut >= 0 && h.written+n > h.failOut {
		n, err = h.failOut-h.written, errBroken
	}
	h.written += n
	if n > 0 && p[0] != 0xff {
		h.out = addSeg(h.out, hugeSeg{n: n})
		return int(n), err
	}
	for m := n; m > 0; {
		if len(h.pending) == 0 {
			return 0, errors.New("bytes from nowhere")
		}
		k := m
		if k > h.pending[0].n {
			k = h.pending[0].n
		}
		h.out = addSeg(h.out, hugeSeg{true, h.pending[0].off, k})
		h.pending[0].off += k
		h.pending[0].n -= k
		if h.pending[0].n == 0 {
			h.pending = h.pending[1:]
		}
		m -= k
	}
	return int(n), err
}

// ReadFrom keeps the number of reads small.
func (h *hugeRun) ReadFrom(r io.Reader) (n int64, err error) {
	buf := make([]byte, 1<<20)
	for {
		k, e := r.Read(buf)
		if k > 0 {
			w, e := h.Write(buf[:k])
			n += int64(w)
			if e != nil {
				return n, e
			}
		}
		if e == io.EOF {
			return n, nil
		}
		if e != nil {
			return n, e
		}
	}
}

// hugeSource answers every request with as many zeros as asked for.
type hugeSource struct {
	zeros   []byte
	results chan patcher.BlockReponse
	errs    chan error
	last    uint  // the last block of the reference
	cut     int64 // by how much it is short
	less    int64 // bytes that the answers are short of
}

func (s *hugeSource) GetResultChannel() <-chan patcher.BlockReponse { return s.results }
func (s *hugeSource) EncounteredError() <-chan error                { return s.errs }
func (s *hugeSource) RequestBlocks(m patcher.MissingBlockSpan) error {
	n := int64(m.EndBlock-m.StartBlock+1)*m.BlockSize - s.less
	if m.EndBlock == s.last {
		n -= s.cut
	}
	d := s.zeros[:n]
	vs.Go2(func() { vs.Send(s.results, patcher.BlockReponse{StartBlock: m.StartBlock, Data: d}) })
	return nil
}

func c07huge(tier string, emit func(eng.Case)) {
	type part struct {
		local bool
		n     uint
	}
	type cfg struct {
		bs    int64
		parts []part
		base  int64
		cut   int64
		less  int64 // bytes that an answer or the local file is short of
	}
	var cfgs []cfg
	add := func(c cfg) {
		cfgs = append(cfgs, c)
		if tier != "quick" || len(c.parts) < 3 {
			c.less = c.bs
			cfgs = append(cfgs, c)
		}
	}
	add(cfg{bs: 1 << 20, parts: []part{{true, 2049}}})
	add(cfg{bs: 1 << 20, parts: []part{{true, 4097}}, base: 1<<32 + 5})
	add(cfg{bs: 1 << 20, parts: []part{{false, 2049}}})
	add(cfg{bs: 1 << 20, parts: []part{{false, 4096}, {true, 1}}, base: 1 << 33})
	add(cfg{bs: 1 << 20, parts: []part{{true, 2048}, {false, 2048}, {true, 4096}}, base: 7, cut: 3})
	add(cfg{bs: 1 << 31, parts: []part{{true, 1}, {false, 1}, {true, 2}}, cut: 1})
	add(cfg{bs: 1<<32 + 1, parts: []part{{false, 1}, {true, 1}}, base: 1})
	add(cfg{bs: 1 << 13, parts: []part{{true, 1 << 18}, {false, 1 << 19}}, base: 1 << 40})
	if tier != "quick" {
		add(cfg{bs: 1 << 20, parts: []part{{true, 8193}, {false, 4097}, {true, 1}}, cut: 1<<20 - 1})
		add(cfg{bs: 3, parts: []part{{true, 1 << 30}, {false, 1 << 30}, {true, 1 << 31}}, base: 1 << 31})
	}
	for i, c := range cfgs {
		batch(emit, fmt.Sprintf("huge-%d-bs%d-less%d", i, c.bs, c.less), func() {
			h := &hugeRun{failOut: -1}
			var found []patcher.FoundBlockSpan
			var missing []patcher.MissingBlockSpan
			var want []hugeSeg
			at, off, most := uint(0), c.base, int64(0)
			for k, p := range c.parts {
				n := int64(p.n) * c.bs
				if k == len(c.parts)-1 {
					n -= c.cut
				}
				if p.local {
					found = append(found, patcher.FoundBlockSpan{StartBlock: at, EndBlock: at + p.n - 1, BlockSize: c.bs, MatchOffset: off})
					want = addSeg(want, hugeSeg{true, off, n})
					off += n + 1
					h.size = off - 1
				} else {
					missing = append(missing, patcher.MissingBlockSpan{StartBlock: at, EndBlock: at + p.n - 1, BlockSize: c.bs})
					want = addSeg(want, hugeSeg{n: n})
					if n > most {
						most = n
					}
				}
				at += p.n
			}
			src := &hugeSource{zeros: make([]byte, most), results: make(chan patcher.BlockReponse), errs: make(chan error), last: at - 1, cut: c.cut}
			if c.less > 0 {
				if len(missing) > 0 {
					src.less = c.less
				} else {
					h.size -= c.less + 1
				}
			}
			err := sequential.SequentialPatcher(h, src, missing, found, 1<<30, h)
			eng.Eval(1)
			what := fmt.Sprintf("block size %d, blocks (local or not) %v, local file from %d, %d bytes short", c.bs, c.parts, c.base, c.less)
			switch {
			case c.less > 0 && err == nil:
				eng.Failf("%s: success with %v", what, h.out)
			case c.less == 0 && err != nil:
				eng.Failf("%s: %v", what, err)
			case c.less == 0 && fmt.Sprint(h.out) != fmt.Sprint(want):
				eng.Failf("%s: success with %v, want %v", what, h.out, want)
			}
			vs.Outcome("%s", what)
		})
	}
}
