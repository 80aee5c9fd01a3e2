package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/patcher"
	"verif/mc/eng"
	"verif/mc/vs"
)

// ---- block sources over a local reader ----

// seekFile is a file that is read in pieces and may fail.
type seekFile struct {
	data     []byte
	pos      int64
	max      int  // most bytes per read (0: all)
	empty    bool // an empty read before each
	with     bool // the end comes together with the last bytes
	failSeek int  // this call fails (-1: none)
	moved    bool // a failing seek moves nevertheless
	failAt   int  // reading this byte fails (-1: none)
	partial  bool // the failure comes together with the bytes before it
	seeks    int
	z        bool
}

var errSeek = errors.New("seek-failure-1234")

func (f *seekFile) Seek(o int64, whence int) (int64, error) {
	vs.Pause()
	k := f.seeks
	f.seeks++
	switch whence {
	case io.SeekCurrent:
		o += f.pos
	case io.SeekEnd:
		o += int64(len(f.data))
	}
	if k == f.failSeek {
		if f.moved {
			f.pos = o / 2
		}
		return f.pos, errSeek
	}
	if o < 0 {
		return f.pos, errSeek
	}
	f.pos = o
	return o, nil
}

func (f *seekFile) Read(b []byte) (int, error) {
	vs.Pause()
	if len(b) == 0 {
		return 0, nil
	}
	if f.empty {
		if f.z = !f.z; f.z {
			return 0, nil
		}
	}
	if f.pos >= int64(len(f.data)) {
		return 0, io.EOF
	}
	n := len(f.data) - int(f.pos)
	if n > len(b) {
		n = len(b)
	}
	if f.max > 0 && n > f.max {
		n = f.max
	}
	var err error
	if f.failAt >= 0 && int(f.pos) <= f.failAt && int(f.pos)+n > f.failAt {
		n = f.failAt - int(f.pos)
		if n == 0 || f.partial {
			err = errBroken
		}
	} else if f.failAt >= 0 && int(f.pos) > f.failAt && f.moved {
		return 0, errBroken
	}
	copy(b, f.data[f.pos:int(f.pos)+n])
	f.pos += int64(n)
	if err == nil && f.with && f.pos == int64(len(f.data)) {
		err = io.EOF
	}
	return n, err
}

type srcCase struct {
	f      seekFile
	bs     int
	size   int64  // file size known to the resolver (0: not known)
	limit  uint64 // on the size of a request
	ranges []rng
	other  []int // with values, each range is asked for when the ones before are complete, and somebody else moves the file there before
}

func (c *srcCase) String() string {
	return fmt.Sprintf("file of %d bytes (at %d, moved to %v; known size %d), block size %d, requests of up to %d bytes, ranges %v, reads of up to %d bytes (empty reads %v, end with data %v), seek %d fails (moves %v), byte %d fails (with data %v)",
		len(c.f.data), c.f.pos, c.other, c.size, c.bs, c.limit, c.ranges, c.f.max, c.f.empty, c.f.with, c.f.failSeek, c.f.moved, c.f.failAt, c.f.partial)
}

// want is what a range has to give.
func (c *srcCase) want(r rng) (data []byte, ok bool) {
	a, b := int(r.a)*c.bs, int(r.b+1)*c.bs
	n := len(c.f.data)
	if a >= n {
		return nil, false
	}
	if b > n {
		b = n
	}
	return c.f.data[a:b], true
}

func (c *srcCase) run() {
	f := c.f
	fail := func(s string, a ...any) { eng.Failf("%s: %s", c, fmt.Sprintf(s, a...)) }
	src := blocksources.NewReadSeekerBlockSource(&f, &blocksources.FixedSizeBlockResolver{BlockSize: uint64(c.bs), FileSize: c.size, MaxDesiredRequestSize: c.limit})
	asked := 0
	ask := func() {
		r := c.ranges[asked]
		asked++
		f.pos = int64(c.other[asked%len(c.other)])
		src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: r.a, EndBlock: r.b, BlockSize: int64(c.bs)})
	}
	if len(c.other) > 0 {
		ask()
	} else {
		vs.Go2(func() {
			for _, r := range c.ranges {
				if src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: r.a, EndBlock: r.b, BlockSize: int64(c.bs)}) != nil {
					return
				}
			}
		})
	}
	faulty := c.f.failSeek >= 0 || c.f.failAt >= 0
	missing := false
	total, blocks := 0, 0
	for _, r := range c.ranges {
		w, ok := c.want(r)
		missing = missing || !ok
		total += len(w)
		blocks += int(r.b-r.a) + 1
	}
	have := 0
	got := map[uint][]byte{}
	var err error
	for have < total || missing {
		if len(c.other) > 0 && asked < len(c.ranges) {
			// all of the ranges asked for so far are there: ask for the next
			n := 0
			for _, r := range c.ranges[:asked] {
				w, _ := c.want(r)
				n += len(w)
			}
			if have == n {
				ask()
			}
		}
		s := vs.Select(false, vs.RecvCase(src.GetResultChannel()), vs.RecvCase(src.EncounteredError()))
		if s.I == 1 {
			e, ok := vs.SelVal2(src.EncounteredError(), s)
			if !ok {
				fail("the source ends without an error, after %d of %d bytes", have, total)
				break
			}
			err = e
			break
		}
		v, ok := vs.SelVal2(src.GetResultChannel(), s)
		if !ok {
			e, ok := vs.Recv2(src.EncounteredError())
			if !ok {
				fail("the source ends without an error, after %d of %d bytes", have, total)
			}
			err = e
			break
		}
		if _, ok := got[v.StartBlock]; ok || len(v.Data) == 0 {
			fail("block %d is delivered twice, or without data", v.StartBlock)
			break
		}
		got[v.StartBlock] = v.Data
		have += len(v.Data)
		o := int(v.StartBlock) * c.bs
		if o+len(v.Data) > len(c.f.data) || !bytes.Equal(v.Data, c.f.data[o:o+len(v.Data)]) {
			fail("block %d: %s is delivered", v.StartBlock, show(v.Data))
			break
		}
	}
	if err == nil && src.ReadBytes() != int64(have) {
		fail("%d bytes were delivered, %d are reported as read", have, src.ReadBytes())
	}
	src.Close()
	vs.Quiesce()
	if o := vs.Others(); len(o) > 0 {
		fail("goroutines that never end: %s", strings.Join(o, ", "))
	}
	if err != nil && !faulty && !missing {
		fail("error %v though nothing fails", err)
	}
	if err == nil {
		for _, r := range c.ranges {
			var starts []int
			for s := range got {
				if s >= r.a && s <= r.b {
					starts = append(starts, int(s))
				}
			}
			sort.Ints(starts)
			var all []byte
			for _, s := range starts {
				if s*c.bs != int(r.a)*c.bs+len(all) {
					fail("blocks %d-%d: the piece at block %d does not follow the one before", r.a, r.b, s)
				}
				all = append(all, got[uint(s)]...)
			}
			if w, _ := c.want(r); !bytes.Equal(all, w) {
				fail("blocks %d-%d: %s is delivered, and no error", r.a, r.b, show(all))
			}
		}
		if f.failSeek >= 0 && f.seeks > f.failSeek {
			fail("a failed seek is not reported")
		}
	}
	eng.Eval(1)
	vs.Outcome("%v %v %d", c.ranges, err, have)
	eng.Outcome(fmt.Sprint(c, err))
}

func c30(tier string, emit func(eng.Case)) {
	sets := [][]rng{{{0, 0}}, {{0, 1}}, {{1, 1}}, {{1, 2}}, {{0, 3}}, {{0, 0}, {2, 2}}, {{0, 1}, {3, 3}}, {{2, 2}, {0, 0}}, {{1, 2}, {0, 0}, {3, 3}}, {{3, 3}, {2, 2}, {1, 1}, {0, 0}}, {{4, 4}}, {{2, 5}}, {{0, 0}, {4, 6}}}
	if tier != "quick" {
		sets = nil
		// every list of disjoint ranges of five blocks, in every order
		var rec func(from uint, cur []rng)
		rec = func(from uint, cur []rng) {
			if len(cur) > 0 && len(cur) < 4 {
				permute(append([]rng(nil), cur...), func(p []rng) { sets = append(sets, append([]rng(nil), p...)) })
			}
			for a := from; a < 5; a++ {
				for b := a; b < 5; b++ {
					rec(b+1, append(cur[:len(cur):len(cur)], rng{a, b}))
				}
			}
		}
		rec(0, nil)
	}
	for _, n := range pick(tier, []int{0, 1, 4, 7, 8, 9, 12}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}) {
		for _, bs := range []int{1, 2, 3} {
			data := filler(uint32(n+1), n)
			for si, ranges := range sets {
				batch(emit, fmt.Sprintf("inputs n%d bs%d set%d", n, bs, si), func() {
					for _, size := range []int64{0, int64(n)} {
						beyond := false
						for _, r := range ranges {
							beyond = beyond || int(r.b)*bs >= n
						}
						for _, limit := range []uint64{0, 1, uint64(bs), uint64(2 * bs)} {
							if beyond && (size > 0 || limit > 0) {
								continue // nobody asks for blocks beyond a known end; a piece of its own there may give an error, or less data
							}
							for _, max := range []int{0, 1, 2} {
								for flags := 0; flags < 4; flags++ {
									c := srcCase{f: seekFile{data: data, max: max, empty: flags&1 > 0, with: flags&2 > 0, failSeek: -1, failAt: -1}, bs: bs, size: size, limit: limit, ranges: ranges}
									c.run()
									if flags&1 > 0 && tier == "quick" {
										continue
									}
									for k := 0; k < 4; k++ {
										c.f.failSeek = k
										c.run()
										c.f.moved = true
										c.run()
										c.f.moved = false
									}
									c.f.failSeek = -1
									for k := 0; k < n; k++ {
										c.f.failAt = k
										c.run()
										c.f.partial = true
										c.run()
										c.f.partial = false
									}
								}
							}
						}
					}
				})
			}
		}
	}
	// the file is elsewhere when the source gets it, and is moved while no request is under way
	for _, n := range []int{1, 7, 8, 9} {
		for bs := 1; bs <= 3; bs++ {
			for si, ranges := range sets {
				batch(emit, fmt.Sprintf("elsewhere n%d bs%d set%d", n, bs, si), func() {
					data := filler(uint32(n+1), n)
					for _, r := range ranges {
						if int(r.b)*bs >= n {
							return
						}
					}
					for _, limit := range []uint64{0, 1, uint64(2 * bs)} {
						for at := 0; at <= n+1; at++ {
							c := srcCase{f: seekFile{data: data, pos: int64(at), failSeek: -1, failAt: -1}, bs: bs, size: int64(n), limit: limit, ranges: ranges}
							c.run()
							for to := 0; to <= n+1; to++ {
								c.other = []int{to, at}
								c.run()
							}
						}
					}
				})
			}
		}
	}
	// requests under all schedules
	for i, s := range [][]rng{{{0, 0}, {1, 1}}, {{2, 3}, {0, 1}}, {{0, 0}, {2, 2}, {1, 1}}} {
		for _, limit := range []uint64{0, 2} {
			for _, m := range []struct {
				mask  uint32
				bound int32
			}{{0, int32(pick(tier, 2, 3))}, {1 << 1, int32(pick(tier, 1, 2))}} {
				for fs := -1; fs < 2; fs++ {
					emit(eng.Case{Key: fmt.Sprintf("schedules %d limit%d k%d p%d seek%d", i, limit, m.mask, m.bound, fs), Bound: m.bound, Split: true, Opts: vs.Opts{Mask: m.mask, Blocked: 1, MaxSteps: 100000}, Body: func() {
						c := srcCase{f: seekFile{data: filler(3, 8), max: 1, failSeek: fs, failAt: -1}, bs: 2, size: 8, limit: limit, ranges: s}
						c.run()
					}})
				}
			}
		}
	}
}

func init() {
	eng.Register(&eng.Prop{ID: "C30", Gen: c30, Sched: true,
		Rule: "input: file, block size, known file size, limit on requests, ranges in order of request, how the file is read, call or byte that fails, schedule; distinct: by these and the error",
		Bounds: func(tier string) string {
			return pick(tier, "files of 7 sizes up to 12 bytes, 13 lists of ranges", "files of up to 13 bytes, every list of up to 3 disjoint ranges of 5 blocks in every order") + ", block sizes 1-3, 4 limits, 12 ways of reading, a failure of each of 4 seeks and of every byte; readers that are elsewhere at first or between requests; schedules with up to " + pick(tier, "2", "3") + " preemptions"
		},
		Assume: []string{"a file that ends inside a range gives the bytes that it has; a reader does not use io.ErrUnexpectedEOF for failures"}})
}
