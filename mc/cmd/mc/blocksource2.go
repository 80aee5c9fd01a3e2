package main

import (
	"fmt"
	"strings"

	"github.com/Redundancy/go-sync/patcher"
	"verif/mc/eng"
	"verif/mc/vs"
)

// endOfC09 is the oracle of C09 when no event is possible any more.
func (e *bsEnv) endOfC09() {
	n := e.delivered()
	allowed := make([]int, e.blocks())
	bad := 0
	for _, t := range e.transfers {
		if t.how == ok {
			for o := t.start; o < t.end; o += int64(e.bs) {
				allowed[int(o)/e.bs]++
			}
		} else {
			bad++
		}
	}
	for b := range n {
		if n[b] > allowed[b] {
			eng.Failf("block %d was delivered %d times, transferred well %d times", b, n[b], allowed[b])
		}
	}
	if e.reqDone < e.requested {
		eng.Failf("RequestBlocks does not return (%s)", strings.Join(e.acts, ","))
	}
	if bad == 0 {
		if len(e.errs) > 0 || e.resClosed || e.errClosed {
			eng.Failf("error or end without a failure: %v", e.errs)
		}
		e.outcome()
		return
	}
	if len(e.errs) == 0 {
		eng.Failf("%d transfers failed and the consumer was given no error (%s)", bad, strings.Join(e.acts, ","))
	}
	for _, err := range e.errs {
		if err == nil {
			eng.Failf("the error that was given is nil")
		}
	}
	if o := vs.Others(); len(o) > 0 {
		eng.Failf("still running after the error was taken and all transfers ended: %v (%s)", o, strings.Join(e.acts, ","))
	}
	e.outcome()
}

func c09(tier string, emit func(eng.Case)) {
	type cfg struct {
		blocks uint
		maxR   int
		conc   int
		max    int
		faults []int
		bound  int32
		mask   uint32
	}
	q := []cfg{
		{3, 3, 1, 0, []int{ok, fail, corrupt, empty}, 0, 0},
		{3, 3, 2, 0, []int{ok, fail, corrupt, empty}, 0, 0},
		{4, 2, 2, 0, []int{ok, fail, corrupt}, 0, 0},
		{3, 3, 3, 0, []int{ok, fail, corrupt}, 0, 0},
		{4, 1, 2, 2, []int{ok, fail, corrupt}, 0, 0},
		{4, 1, 4, 2, []int{ok, fail, corrupt}, 0, 0},
		{2, 2, 2, 0, []int{ok, fail, corrupt}, 0, 0},
		{2, 2, 2, 0, []int{ok, fail, corrupt}, 2, 0},
		{2, 2, 1, 0, []int{ok, fail}, 1, 1 << 1},
		{2, 2, 2, 0, []int{fail, corrupt}, 1, 1 << 1},
		{3, 3, 3, 0, []int{fail, corrupt}, 1, 0},
		{3, 2, 2, 0, []int{ok, longer, blockMore}, 0, 0},
		{3, 3, 3, 0, []int{ok, blockMore}, 0, 0},
		{4, 1, 2, 2, []int{ok, corrupt, longer, blockMore}, 0, 0},
		{2, 2, 2, 0, []int{fail, blockMore}, 1, 0},
		{3, 3, 2, 0, []int{ok, none}, 0, 0},
	}
	if tier != "quick" {
		q = []cfg{
			{4, 4, 1, 0, []int{ok, fail, corrupt, empty}, 0, 0},
			{4, 4, 2, 0, []int{ok, fail, corrupt}, 0, 0},
			{4, 4, 3, 0, []int{ok, fail}, 0, 0},
			{4, 4, 3, 0, []int{ok, corrupt}, 0, 0},
			{4, 3, 3, 0, []int{ok, fail, corrupt}, 0, 0},
			{4, 4, 4, 0, []int{fail, corrupt}, 0, 0},
			{5, 1, 2, 2, []int{ok, fail, corrupt}, 0, 0},
			{5, 1, 3, 2, []int{ok, fail, corrupt}, 0, 0},
			{3, 3, 2, 0, []int{ok, fail, corrupt}, 1, 0},
			{3, 3, 3, 0, []int{fail, corrupt}, 2, 0},
			{2, 2, 2, 0, []int{ok, fail, corrupt, empty}, 0, 0},
			{2, 2, 3, 0, []int{ok, fail, corrupt}, 0, 0},
			{2, 2, 2, 0, []int{ok, fail, corrupt}, 3, 0},
			{2, 2, 2, 0, []int{ok, fail, corrupt}, 2, 1 << 1},
			{3, 3, 2, 0, []int{ok, fail}, 1, 1 << 1},
			{3, 3, 3, 0, []int{fail}, 2, 1 << 1},
			{4, 4, 3, 0, []int{ok, longer, blockMore}, 0, 0},
			{5, 1, 3, 2, []int{ok, corrupt, longer, blockMore}, 0, 0},
			{2, 2, 2, 0, []int{ok, fail, blockMore}, 2, 0},
			{4, 4, 3, 0, []int{ok, none}, 0, 0},
			{3, 3, 2, 0, []int{ok, fail, none}, 0, 0},
		}
	}
	for _, c := range q {
		one := func(rs []rng) {
			emit(eng.Case{
				Key:   fmt.Sprintf("b%d r%s c%d m%d f%v p%d k%d", c.blocks, rangesKey(rs), c.conc, c.max, c.faults, c.bound, c.mask),
				Bound: c.bound,
				Opts:  vs.Opts{Mask: c.mask, Blocked: 1, MaxSteps: 200000},
				Body: func() {
					e := &bsEnv{file: bsFile(int(c.blocks), 2, true), bs: 2, ranges: rs, faults: c.faults, maxConc: c.conc, takes: true}
					e.real = c.faults[len(c.faults)-1] == blockMore
					e.start(c.max)
					for e.step() {
					}
					e.endOfC09()
					vs.Fixed(true)
					e.doClose()
					vs.Quiesce()
				},
			})
		}
		rangeSets(c.blocks, c.maxR, func(set []rng) { permute(append([]rng(nil), set...), one) })
		if c.blocks == 2 {
			overlapping(2, 2, one)
			if c.bound == 0 {
				overlapping(2, 3, one)
			}
		}
	}
	// a consumer that requests everything first, and then waits for results or an error like the patcher
	for _, conc := range []int{1, 2, 3} {
		for _, kinds := range pick(tier, [][]int{{ok, fail}, {fail, ok}, {corrupt, ok}, {ok, ok, fail}, {fail, corrupt, ok}, {corrupt, fail, fail}},
			[][]int{{ok, fail}, {fail, ok}, {corrupt, ok}, {fail, fail}, {ok, ok, fail}, {fail, corrupt, ok}, {corrupt, fail, fail}, {ok, fail, ok}, {ok, corrupt, corrupt}, {ok, ok, ok, fail}, {ok, fail, ok, fail}}) {
			for _, mask := range []uint32{0, 1 << 1} {
				bound := int32(pick(tier, 1, 2))
				if mask == 0 {
					bound++
				}
				emit(eng.Case{
					Key: fmt.Sprintf("waiting-%v-c%d-k%d", kinds, conc, mask), Bound: bound, Opts: vs.Opts{Mask: mask, Blocked: 1, MaxSteps: 200000},
					Body: func() {
						e := &bsEnv{file: bsFile(len(kinds), 2, false), bs: 2, maxConc: conc}
						e.auto = kinds
						e.start(0)
						for b := range kinds {
							if err := e.src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: uint(b), EndBlock: uint(b), BlockSize: 2}); err != nil {
								vs.Logf("request %d: %v", b, err)
							}
						}
						for len(e.errs) == 0 {
							s := vs.Select(false, vs.RecvCase(e.src.GetResultChannel()), vs.RecvCase(e.src.EncounteredError()))
							if s.I == 0 {
								v, good := vs.SelVal2(e.src.GetResultChannel(), s)
								if !good {
									eng.Failf("the source ended without giving an error")
									return
								}
								e.got = append(e.got, v)
								if len(e.got) > len(kinds) {
									eng.Failf("too many responses")
									return
								}
							} else {
								v, good := vs.SelVal2(e.src.EncounteredError(), s)
								if !good || v == nil {
									eng.Failf("the source ended without giving an error")
									return
								}
								e.errs = append(e.errs, v)
							}
						}
						vs.Quiesce()
						e.endOfC09()
					},
				})
			}
		}
	}
}

// ---- closing ----

// watch waits on the channels of the source until they are closed.
func (e *bsEnv) watch() {
	vs.Go2(func() {
		for {
			v, good := vs.Recv2(e.src.GetResultChannel())
			if !good {
				e.resClosed = true
				return
			}
			e.got = append(e.got, v)
			if len(e.got) > 100+2*len(e.file) {
				eng.Failf("responses without end")
				return
			}
		}
	})
	vs.Go2(func() {
		for {
			v, good := vs.Recv2(e.src.EncounteredError())
			if !good {
				e.errClosed = true
				return
			}
			e.errs = append(e.errs, v)
			if len(e.errs) > 100 {
				eng.Failf("errors without end")
				return
			}
		}
	})
}

func (e *bsEnv) endOfC10(watched bool) {
	e.delivered()
	acts := strings.Join(e.acts, ",")
	if e.closeRet < e.closing {
		eng.Failf("Close does not return (%s)", acts)
	}
	if e.reqDone < e.requested {
		eng.Failf("RequestBlocks does not return (%s)", acts)
	}
	if o := vs.Others(); len(o) > 0 {
		eng.Failf("still running after Close and the end of all transfers: %v (%s)", o, acts)
		return
	}
	if watched && (!e.resClosed || !e.errClosed) {
		eng.Failf("waiting on a channel of the closed source did not end (%s)", acts)
	}
	// use after the end
	vs.Fixed(true)
	before := len(e.transfers)
	var reqErr error
	done := 0
	vs.Go2(func() {
		reqErr = e.src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: 0, EndBlock: 0, BlockSize: int64(e.bs)})
		done++
		e.src.Close()
		done++
		vs.Recv2(e.src.GetResultChannel())
		vs.Recv2(e.src.EncounteredError())
		done++
		e.src.ReadBytes()
	})
	vs.Quiesce()
	switch done {
	case 0:
		eng.Failf("RequestBlocks on a closed source does not return (%s)", acts)
	case 1:
		eng.Failf("Close of a closed source does not return (%s)", acts)
	case 2:
		eng.Failf("the channels of the closed source are not closed (%s)", acts)
	}
	if done > 0 && reqErr == nil {
		eng.Failf("RequestBlocks on a closed source gives no error (%s)", acts)
	}
	if len(e.transfers) > before {
		eng.Failf("a transfer was started on a closed source (%s)", acts)
	}
	e.outcome()
}

func c10(tier string, emit func(eng.Case)) {
	type cfg struct {
		blocks uint
		maxR   int
		conc   int
		max    int
		faults []int
		closes int
		mode   string
		bound  int32
		mask   uint32
	}
	var q []cfg
	for _, mode := range []string{"takes", "deaf", "watched"} {
		q = append(q,
			cfg{2, 2, 1, 0, []int{ok, fail, corrupt}, 2, mode, 0, 0},
			cfg{2, 2, 2, 0, []int{ok, fail, corrupt}, 2, mode, 0, 0},
			cfg{3, 3, 2, 0, []int{ok, fail}, 1, mode, 0, 0},
			cfg{4, 1, 2, 2, []int{ok, fail}, 1, mode, 0, 0},
			cfg{2, 2, 2, 0, []int{ok, fail}, 1, mode, 1, 0},
			cfg{1, 1, 1, 0, []int{ok, fail}, 2, mode, 2, 0},
			cfg{1, 1, 1, 0, []int{ok, fail, corrupt}, 2, mode, 1, 1 << 1},
		)
	}
	if tier != "quick" {
		for _, mode := range []string{"takes", "deaf", "watched"} {
			q = append(q,
				cfg{3, 3, 3, 0, []int{ok, fail, corrupt}, 1, mode, 0, 0},
				cfg{3, 3, 2, 0, []int{ok, fail}, 2, mode, 0, 0},
				cfg{5, 1, 3, 2, []int{ok, fail}, 1, mode, 0, 0},
				cfg{2, 2, 2, 0, []int{ok, fail}, 3, mode, 0, 0},
				cfg{2, 2, 2, 0, []int{ok, fail}, 2, mode, 1, 1 << 1},
				cfg{1, 1, 1, 0, []int{ok, fail}, 3, mode, 3, 0},
				cfg{2, 2, 2, 0, []int{ok, fail}, 2, mode, 2, 0},
				cfg{1, 1, 1, 0, []int{ok, fail}, 2, mode, 2, 1 << 1},
			)
		}
	}
	for _, c := range q {
		one := func(rs []rng) {
			emit(eng.Case{
				Key:   fmt.Sprintf("%s b%d r%s c%d m%d f%v x%d p%d k%d", c.mode, c.blocks, rangesKey(rs), c.conc, c.max, c.faults, c.closes, c.bound, c.mask),
				Bound: c.bound,
				Opts:  vs.Opts{Mask: c.mask, Blocked: 1, MaxSteps: 200000},
				Body: func() {
					e := &bsEnv{file: bsFile(int(c.blocks), 2, true), bs: 2, ranges: rs, faults: c.faults, maxConc: c.conc, takes: c.mode == "takes", closes: c.closes}
					e.start(c.max)
					if c.mode == "watched" {
						e.watch()
					}
					for e.step() {
					}
					e.endOfC10(c.mode == "watched")
				},
			})
		}
		one(nil)
		rangeSets(c.blocks, c.maxR, func(set []rng) {
			set = append([]rng(nil), set...)
			permute(set, func(rs []rng) { one(rs) })
		})
		if c.blocks == 2 {
			overlapping(2, 2, one)
		}
	}
	// everything at once, without waiting for quiet moments
	for _, conc := range []int{1, 2} {
		for _, kinds := range pick(tier, [][]int{{ok}, {fail}, {ok, fail}, {ok, ok}}, [][]int{{ok}, {fail}, {corrupt}, {ok, fail}, {fail, ok}, {ok, ok}, {fail, fail}, {ok, ok, ok}}) {
			for closers := 1; closers <= 2; closers++ {
				for _, watched := range []bool{false, true} {
					for _, mask := range []uint32{0, 1 << 1} {
						bound := int32(pick(tier, 2, 3))
						if mask != 0 || len(kinds) > 1 && closers > 1 {
							bound--
						}
						if mask != 0 && len(kinds) > 2 {
							continue
						}
						emit(eng.Case{
							Key: fmt.Sprintf("race-%v-c%d-x%d-%v-k%d", kinds, conc, closers, watched, mask), Bound: bound, Split: bound > 1,
							Opts: vs.Opts{Mask: mask, Blocked: 1, MaxSteps: 200000},
							Body: func() {
								e := &bsEnv{file: bsFile(len(kinds), 2, false), bs: 2, maxConc: conc}
								e.auto = kinds
								e.start(0)
								if watched {
									e.watch()
								}
								for b := range kinds {
									e.ranges = append(e.ranges, rng{uint(b), uint(b)})
								}
								vs.Go2(func() {
									for range kinds {
										e.requested++
										r := e.ranges[e.requested-1]
										if e.src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: r.a, EndBlock: r.b, BlockSize: 2}) != nil {
											e.reqErr++
										}
										e.reqDone++
									}
								})
								for k := 0; k < closers; k++ {
									e.doClose()
								}
								vs.Quiesce()
								e.endOfC10(watched)
							},
						})
					}
				}
			}
		}
	}
}

func init() {
	eng.Register(&eng.Prop{ID: "C09", Gen: c09, Sched: true,
		Rule: "case: list of requested ranges in every order, concurrency, split size, kinds of failure; execution: order and outcome of the transfers, consumer timing, preemptions; distinct: by event order and what was delivered",
		Bounds: func(tier string) string {
			return pick(tier, "up to 3 ranges (also overlapping and repeated) of 3-4 blocks, 1-4 transfers at once, every transfer ends well, fails or is corrupt; up to 2 preemptions", "up to 4 ranges (also overlapping and repeated) of 4-5 blocks, 1-4 transfers at once, every transfer ends well, fails or is corrupt; up to 3 preemptions")
		},
		Assume: []string{"a transfer that returns fewer bytes than asked without an error is an error of the requester (C12)"}})
	eng.Register(&eng.Prop{ID: "C10", Gen: c10, Sched: true,
		Rule: "case: requested ranges, concurrency, kinds of failure, kind of consumer; execution: moments of up to 3 closes among all other events, preemptions; distinct: by event order and what was delivered",
		Bounds: func(tier string) string {
			return pick(tier, "up to 3 ranges (also overlapping) of 4 blocks, 1-2 transfers at once, 1-2 closes, consumers that take, wait or never read; up to 2 preemptions", "up to 3 ranges (also overlapping) of 5 blocks, 1-3 transfers at once, 1-3 closes, consumers that take, wait or never read; up to 3 preemptions")
		},
		Assume: []string{"every running transfer ends"}})
}
