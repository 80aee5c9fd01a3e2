package main

import (
	"bytes"
	"crypto/md5"
	"fmt"
	"strings"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/comparer"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/patcher"
	"verif/mc/eng"
	"verif/mc/vs"
)

// ---- whole patches in memory ----

// recorder is a block source that notes what is requested.
type recorder struct {
	patcher.BlockSource
	spans []patcher.MissingBlockSpan
}

func (r *recorder) RequestBlocks(m patcher.MissingBlockSpan) error {
	r.spans = append(r.spans, m)
	return r.BlockSource.RequestBlocks(m)
}

func summaryOf(ref []byte, bs int) *gosync.BasicSummary {
	c := chunksOf(ref, bs)
	return &gosync.BasicSummary{
		BlockSize:      uint(bs),
		BlockCount:     uint(len(c)),
		FileSize:       int64(len(ref)),
		ChecksumIndex:  index.MakeChecksumIndex(c),
		ChecksumLookup: chunks.StrongChecksumGetter(c),
	}
}

// memRequester serves a file.
type memRequester struct{ file []byte }

func (r *memRequester) DoRequest(start, end int64) ([]byte, error) {
	if start < 0 || end > int64(len(r.file)) || start > end {
		return nil, fmt.Errorf("bytes %d-%d of a file of %d bytes", start, end, len(r.file))
	}
	return append([]byte(nil), r.file[start:end]...), nil
}

func (r *memRequester) IsFatal(error) bool { return true }

type memPatch struct {
	err   error
	out   []byte
	spans []patcher.MissingBlockSpan
}

// patchMem patches local into ref. verified chooses a source that verifies what it transfers.
func patchMem(sum *gosync.BasicSummary, ref, local []byte, bs, conc int, verified bool) *memPatch {
	var src *blocksources.BlockSourceBase
	res := blocksources.MakeFileSizedBlockResolver(uint64(bs), int64(len(ref)))
	if verified {
		src = blocksources.NewBlockSourceBase(&memRequester{ref}, res, &filechecksum.HashVerifier{
			Hash: md5.New(), BlockSize: uint(bs), BlockChecksumGetter: sum,
		}, conc, 4<<20)
	} else {
		src = blocksources.NewReadSeekerBlockSource(bytes.NewReader(ref), res)
	}
	old := gosync.DefaultConcurrency
	gosync.DefaultConcurrency = conc
	rec := &recorder{BlockSource: src}
	out := &bytes.Buffer{}
	r := &gosync.RSync{Input: bytes.NewReader(local), Source: rec, Output: out, Summary: sum}
	err := r.Patch()
	gosync.DefaultConcurrency = old
	e2 := r.Close()
	if err == nil {
		err = e2
	}
	src.Close()
	vs.Quiesce()
	return &memPatch{err: err, out: out.Bytes(), spans: rec.spans}
}

// checkExact is the oracle of C01.
func (p *memPatch) checkExact(ref []byte) string {
	if p.err != nil {
		return fmt.Sprintf("error: %v", p.err)
	}
	if !bytes.Equal(p.out, ref) {
		return fmt.Sprintf("wrote %s (%d bytes), differs at byte %d", show(p.out), len(p.out), diffAt(p.out, ref))
	}
	return ""
}

// checkRequests is the oracle of C02.
func (p *memPatch) checkRequests(ref, local []byte, bs int) string {
	nb := nblocks(len(ref), bs)
	req := make([]int, nb)
	for _, s := range p.spans {
		if s.EndBlock < s.StartBlock || int(s.EndBlock) >= nb {
			return fmt.Sprintf("requested blocks %d-%d of %d", s.StartBlock, s.EndBlock, nb)
		}
		for b := s.StartBlock; b <= s.EndBlock; b++ {
			req[b]++
			if req[b] > 1 {
				return fmt.Sprintf("block %d is requested twice", b)
			}
		}
	}
	if bytes.Equal(ref, local) && len(p.spans) > 0 {
		return fmt.Sprintf("blocks %d-%d are requested for an identical file", p.spans[0].StartBlock, p.spans[0].EndBlock)
	}
	if p.err != nil || len(p.spans) == 0 {
		return ""
	}
	// places of full blocks
	blocks, starts := map[string]bool{}, map[string]bool{}
	pre := bs
	if pre > 8 {
		pre = 8
	}
	for i := 0; i < len(ref)/bs; i++ {
		blocks[string(ref[i*bs:(i+1)*bs])] = true
		starts[string(ref[i*bs:i*bs+pre])] = true
	}
	places := []int{}
	for o := 0; o+bs <= len(local); o++ {
		if starts[string(local[o:o+pre])] && blocks[string(local[o:o+bs])] {
			places = append(places, o)
		}
	}
	for i := 0; i < len(ref)/bs; i++ {
		if req[i] == 0 {
			continue
		}
		for k, o := range places {
			if string(local[o:o+bs]) != string(ref[i*bs:(i+1)*bs]) {
				continue
			}
			if k > 0 && places[k-1]+bs > o || k+1 < len(places) && o+bs > places[k+1] {
				continue
			}
			return fmt.Sprintf("block %d is requested, but the local file has it at %d, where no other block overlaps", i, o)
		}
	}
	if l := len(ref) % bs; l > 0 && req[nb-1] > 0 && bytes.HasSuffix(local, ref[len(ref)-l:]) {
		o := len(local) - l
		free := true
		for _, q := range places {
			if q < o+l && q+bs > o {
				free = false
			}
		}
		if free {
			return fmt.Sprintf("the short last block %d is requested, but the local file ends with it", nb-1)
		}
	}
	return ""
}

type patchCheck func(p *memPatch, ref, local []byte, bs int) string

func exact(p *memPatch, ref, local []byte, bs int) string    { return p.checkExact(ref) }
func requests(p *memPatch, ref, local []byte, bs int) string { return p.checkRequests(ref, local, bs) }

func onePatch(f patchCheck, sum *gosync.BasicSummary, ref, local []byte, bs, conc int, verified bool) bool {
	p := patchMem(sum, ref, local, bs, conc, verified)
	eng.Eval(1)
	if e := f(p, ref, local, bs); e != "" {
		eng.Failf("reference %s, local file %s, block size %d, %d matchers: %s", show(ref), show(local), bs, conc, e)
		return false
	}
	n := 0
	var k []byte
	for _, s := range p.spans {
		n += int(s.EndBlock - s.StartBlock + 1)
		k = append(k, byte(s.StartBlock), byte(s.EndBlock))
	}
	eng.State([]byte(fmt.Sprint(bs, conc, len(ref), len(local), k)))
	eng.Sample("reference %s, local file %s, block size %d, %d matchers: %d blocks requested", show(ref), show(local), bs, conc, n)
	return true
}

func patchCases(f patchCheck, tier string, emit func(eng.Case)) {
	// all pairs of short files
	type cfg struct {
		alpha    string
		bs       int
		ref, loc int
		conc     []int
	}
	cfgs := []cfg{{"ab", 1, 5, 5, []int{1, 2, 3}}, {"ab", 2, 6, 6, []int{1, 2, 3}}, {"ab", 3, 6, 6, []int{1, 2}}, {"abc", 2, 4, 5, []int{2}}}
	if tier != "quick" {
		cfgs = []cfg{{"ab", 1, 6, 6, []int{1, 2, 3, 4}}, {"ab", 2, 7, 8, []int{1, 2, 3, 4}}, {"ab", 3, 8, 8, []int{1, 2, 3}}, {"ab", 4, 8, 8, []int{1, 2}}, {"abc", 2, 5, 6, []int{1, 2, 3}}, {"abc", 3, 6, 6, []int{2}}}
	}
	for _, c := range cfgs {
		words(c.alpha, 0, c.ref, func(w []byte) {
			ref := append([]byte(nil), w...)
			batch(emit, fmt.Sprintf("words-%s-bs%d-%q", c.alpha, c.bs, ref), func() {
				sum := summaryOf(ref, c.bs)
				good, n := true, 0
				words(c.alpha, 0, c.loc, func(local []byte) {
					for _, conc := range c.conc {
						n++
						good = good && onePatch(f, sum, ref, local, c.bs, conc, n%5 == 0)
					}
				})
			})
		})
	}
	// edited files
	for _, bs := range []int{2, 4, 7} {
		for _, nb := range pick(tier, []int{1, 2, 5}, []int{1, 2, 3, 5, 8}) {
			for _, cut := range []int{0, 1, bs - 1} {
				if cut == 1 && bs == 2 {
					continue
				}
				for _, conc := range pick(tier, []int{1, 2, 3, 8}, []int{1, 2, 3, 4, 5, 8, 16}) {
					batch(emit, fmt.Sprintf("edits-bs%d-n%d-cut%d-conc%d", bs, nb, cut, conc), func() {
						ref := filler(uint32(100+bs*nb), nb*bs-cut)
						sum := summaryOf(ref, bs)
						good, n := true, 0
						edits(ref, bs, func(name string, local []byte) {
							n++
							good = good && onePatch(f, sum, ref, local, bs, conc, n%3 == 0)
						})
						rep := append(append(append([]byte(nil), ref...), ref...), ref[:len(ref)/2]...)
						sum = summaryOf(rep, bs)
						edits(rep, bs, func(name string, local []byte) {
							n++
							good = good && (tier == "quick" && n%4 > 0 || onePatch(f, sum, rep, local, bs, conc, n%3 == 0))
						})
					})
				}
			}
		}
	}
	// one or two blocks planted at every offset, so that every position with respect to the sections occurs
	for _, bs := range []int{2, 4, 9} {
		for _, conc := range pick(tier, []int{1, 2, 3, 5, 8}, []int{1, 2, 3, 4, 5, 6, 7, 8, 13}) {
			for _, ll := range []int{5 * bs, 8*bs + 1, 12*bs - 1} {
				batch(emit, fmt.Sprintf("planted-bs%d-conc%d-len%d", bs, conc, ll), func() {
					ref := filler(uint32(bs), 3*bs+bs/2)
					sum := summaryOf(ref, bs)
					base := bytes.Repeat([]byte{'.'}, ll)
					good := true
					for o := 0; o+bs <= ll && good; o++ {
						for b := 0; b < 3; b++ {
							l := append([]byte(nil), base...)
							copy(l[o:], blockOf(ref, bs, b))
							good = good && onePatch(f, sum, ref, l, bs, conc, o%2 == 0)
						}
						l := append([]byte(nil), base...)
						copy(l[o:], ref)
						good = good && onePatch(f, sum, ref, l, bs, conc, o%2 == 1)
						// a copy of two blocks in the wrong order, and one further on
						l = append([]byte(nil), base...)
						copy(l[o:], blockOf(ref, bs, 1))
						if o+2*bs <= ll {
							copy(l[o+bs:], blockOf(ref, bs, 0))
						}
						copy(l[ll-bs:], blockOf(ref, bs, 2))
						good = good && onePatch(f, sum, ref, l, bs, conc, o%2 == 1)
					}
				})
			}
		}
	}
	// usual block sizes: a block planted at places all over a file of a few blocks
	for _, bs := range pick(tier, []int{16, 64, 100, 255, 512, 1000, 2048, 4097, 8192, 20000}, []int{16, 33, 64, 100, 128, 255, 256, 257, 512, 1000, 1024, 2048, 4000, 4096, 4097, 8191, 8192, 8193, 10000, 16384, 20000, 32768, 50000, 65535, 65536, 65537, 100000}) {
		for _, conc := range pick(tier, []int{2, 3}, []int{2, 3, 4, 8}) {
			batch(emit, fmt.Sprintf("planted-usual-bs%d-conc%d", bs, conc), func() {
				ref := filler(uint32(bs), 2*bs+bs/3)
				sum := summaryOf(ref, bs)
				ll := 3*bs + bs/2
				good := true
				for i := 0; i <= 20 && good; i++ {
					for d := -1; d <= 1 && good; d++ {
						o := i*bs/8 + d
						if o < 0 || o+bs > ll {
							continue
						}
						l := bytes.Repeat([]byte{'.'}, ll)
						copy(l[o:], blockOf(ref, bs, i%2))
						if i%3 == 0 {
							copy(l[ll-bs/3-d:], blockOf(ref, bs, 2))
						}
						good = good && onePatch(f, sum, ref, l, bs, conc, i%2 == 0)
					}
				}
			})
		}
	}
	// sections and spans beyond the sizes of the buffers on the way
	type big struct {
		bs, nb, cut int
		conc        int
		name        string
		local       func(ref []byte) []byte
	}
	cat := func(p ...[]byte) []byte { return bytes.Join(p, nil) }
	bigs := []big{
		{4096, 300, 5, 1, "same", func(r []byte) []byte { return r }},
		{4096, 600, 5, 2, "shifted", func(r []byte) []byte { return cat([]byte("x"), r[:700000], []byte("yy"), r[700000:]) }},
		{65536, 40, 1, 2, "shifted", func(r []byte) []byte { return cat([]byte("x"), r) }},
		{65536, 24, 0, 3, "rotated", func(r []byte) []byte { return cat(r[7*65536:], r[:7*65536]) }},
		{300000, 9, 100000, 1, "gap", func(r []byte) []byte { return cat(r[:600000], r[900000:]) }},
		{1000000, 4, 1, 2, "same", func(r []byte) []byte { return r }},
		{1000001, 3, 0, 1, "same", func(r []byte) []byte { return r }},
		{2500000, 2, 3, 1, "same", func(r []byte) []byte { return r }},
		{100000, 30, 100, 3, "none", func(r []byte) []byte { return []byte("nothing in common") }},
		{4, 70001, 1, 2, "swapped", func(r []byte) []byte { return cat([]byte("x"), r[4*40000:4*69000], r[4*300:4*40000]) }},
		{5, 70001, 0, 1, "none", func(r []byte) []byte { return nil }},
		{1000, 5000, 1, 1, "none", func(r []byte) []byte { return nil }},
		{70000, 80, 0, 2, "odd", func(r []byte) []byte {
			l := append([]byte(nil), r...)
			for i := 35000; i < len(l); i += 140000 {
				l[i] ^= 1
			}
			return l
		}},
	}
	if tier != "quick" {
		bigs = append(bigs, big{8192, 3000, 7, 1, "same", func(r []byte) []byte { return r }}, big{8192, 3000, 7, 4, "front", func(r []byte) []byte { return cat([]byte("front"), r) }},
			big{500000, 45, 7, 2, "none", func(r []byte) []byte { return nil }}, big{1, 40000, 0, 2, "same", func(r []byte) []byte { return r }})
	}
	for _, b := range bigs {
		batch(emit, fmt.Sprintf("big-bs%d-n%d-conc%d-%s", b.bs, b.nb, b.conc, b.name), func() {
			ref := filler(uint32(b.bs+b.nb), b.bs*b.nb-b.cut)
			local := b.local(ref)
			p := patchMem(summaryOf(ref, b.bs), ref, local, b.bs, b.conc, true)
			eng.Eval(1)
			if e := f(p, ref, local, b.bs); e != "" {
				eng.Failf("reference of %d bytes, local file %q, block size %d, %d matchers: %s", len(ref), b.name, b.bs, b.conc, e)
			}
		})
	}
}

// ---- all schedules ----

func c24(tier string, emit func(eng.Case)) {
	const (
		all      = 1 | 1<<1 | 1<<2 | 1<<4
		sync_    = 0
		matching = 1 << 2
	)
	type cfg struct {
		ref, local string
		bs, conc   int
		mask       uint32
		bound      int32
	}
	cfgs := []cfg{
		{"abcde", "abXde", 2, 2, all, 1},
		{"abcde", "Xcdab", 2, 2, all, 1},
		{"aaaa", "aaaa", 2, 2, all, 1},
		{"abab", "Xabab", 2, 3, sync_, 1},
		{"abcd", "cdab", 2, 2, sync_, 2},
		{"abc", "Xabc", 1, 2, sync_, 2},
		{"abcdef", "abefcd", 2, 3, sync_, 1},
		{"abcdefg", "abcdXefg", 2, 3, all, 1},
		{"abcd", "cXab", 2, 2, matching, 2},
		{"abcde", "abXde", 2, 3, sync_, 2},
		{"aaaa", "aaaaa", 1, 2, sync_, 2},
	}
	if tier != "quick" {
		cfgs = append(cfgs,
			cfg{"abcd", "cdab", 2, 2, all, 2},
			cfg{"abcde", "abXde", 2, 2, all, 2},
			cfg{"abcdef", "cdXab", 2, 3, all, 2},
			cfg{"abcd", "cdab", 2, 2, sync_, 3},
			cfg{"abcd", "cdab", 2, 3, sync_, 3},
			cfg{"abcdef", "efabcd", 2, 4, sync_, 2},
			cfg{"abcd", "cd", 2, 2, sync_, 4},
			cfg{"aaaa", "aaaaa", 1, 2, sync_, 3},
		)
	}
	for _, c := range cfgs {
		emit(eng.Case{
			Key:   fmt.Sprintf("patch-%s-%s-bs%d-conc%d-k%d-p%d", c.ref, c.local, c.bs, c.conc, c.mask, c.bound),
			Bound: c.bound, Split: true,
			Opts: vs.Opts{Mask: c.mask, Blocked: 1, MaxSteps: 400000},
			Body: func() {
				ref := []byte(c.ref)
				p := patchMem(summaryOf(ref, c.bs), ref, []byte(c.local), c.bs, c.conc, true)
				if e := p.checkExact(ref); e != "" {
					eng.Failf("%s", e)
				}
				if e := p.checkRequests(ref, []byte(c.local), c.bs); e != "" {
					eng.Failf("%s", e)
				}
				if o := vs.Others(); len(o) > 0 {
					eng.Failf("still waiting after the patch: %s", strings.Join(o, ", "))
				}
				vs.Outcome("%v %q", p.spans, p.out)
			},
		})
	}
	// scans that share a matcher and an index
	type scan struct {
		ref    string
		locals []string
		bs     int
		mask   uint32
		bound  int32
	}
	scans := []scan{
		{"abcd", []string{"abcd", "Xcd"}, 2, matching, 2},
		{"ab", []string{"ab", "ab", "ba"}, 2, matching, 1},
		{"aab", []string{"aab", "baa"}, 1, matching, 1},
		{"abab", []string{"Xab", "abX"}, 2, matching | 1<<5 | 1<<6, 1},
	}
	if tier != "quick" {
		scans = append(scans,
			scan{"abcd", []string{"abXcd", "cdab"}, 2, matching, 2},
			scan{"ab", []string{"ab", "ab"}, 2, matching, 3},
			scan{"abcd", []string{"cdX", "ab", "Xcd"}, 2, matching, 2},
			scan{"aab", []string{"aab", "baa"}, 1, matching | 1<<5 | 1<<6, 2},
		)
	}
	for _, s := range scans {
		emit(eng.Case{
			Key:   fmt.Sprintf("scans-%s-%s-bs%d-k%d-p%d", s.ref, strings.Join(s.locals, "+"), s.bs, s.mask, s.bound),
			Bound: s.bound, Split: true,
			Opts: vs.Opts{Mask: s.mask, Blocked: 1, MaxSteps: 400000},
			Body: func() {
				ix := indexOf([]byte(s.ref), s.bs)
				type res struct {
					m []string
					e error
				}
				scanAll := func(cmp *comparer.Comparer, k int, r *res) {
					ch := cmp.StartFindMatchingBlocks(newReader([]byte(s.locals[k])), int64(k)*100, filechecksum.NewFileChecksumGenerator(uint(s.bs)), ix)
					for {
						v, ok := vs.Recv2(ch)
						if !ok {
							return
						}
						if v.Err != nil {
							r.e = v.Err
						}
						r.m = append(r.m, fmt.Sprintf("%d@%d", v.BlockIdx, v.ComparisonOffset))
					}
				}
				together, alone := &comparer.Comparer{}, &comparer.Comparer{}
				got, want := make([]res, len(s.locals)), make([]res, len(s.locals))
				for k := range s.locals {
					vs.Go2(func() { scanAll(together, k, &got[k]) })
				}
				vs.Quiesce()
				if o := vs.Others(); len(o) > 0 {
					eng.Failf("scans do not end: %s", strings.Join(o, ", "))
				}
				vs.Fixed(true) // one after another, under one schedule
				for k := range s.locals {
					scanAll(alone, k, &want[k])
				}
				vs.Quiesce()
				vs.Fixed(false)
				if a, b := fmt.Sprint(got), fmt.Sprint(want); a != b {
					eng.Failf("concurrent scans found %s, one after another %s", a, b)
				}
				if a, b := stats(together), stats(alone); a != b {
					eng.Failf("concurrent scans counted %s, one after another %s", a, b)
				}
				vs.Outcome("%v %s", got, stats(together))
			},
		})
	}
}

func stats(c *comparer.Comparer) string {
	return fmt.Sprintf("comparisons %d, weak hits %d, strong hits %d", c.Comparisons, c.WeakHashHits, c.StrongHashHits)
}

func init() {
	eng.Register(&eng.Prop{ID: "C01", Gen: func(t string, emit func(eng.Case)) {
		hugePatches(hugeExact, t, emit)
		patchCases(exact, t, emit)
	},
		Rule: "input: reference, local file, block size, number of matchers; execution: one schedule; distinct states: sizes and requested spans",
		Bounds: func(tier string) string {
			return pick(tier, "all pairs of files of up to 6 letters of ab (block sizes 1-3, 1-3 matchers) and 4-5 letters of abc; every one-place edit of files of 1-5 blocks; blocks planted at every offset; large files around the buffer sizes; whole patches of files beyond 2 and 4 GiB (sparse stand-ins, one real schedule)",
				"all pairs of files of up to 8 letters of ab (block sizes 1-4, 1-4 matchers) and 6 letters of abc; every one-place edit of files of 1-8 blocks; blocks planted at every offset; large files around the buffer sizes; whole patches of files beyond 2 and 4 GiB (sparse stand-ins, one real schedule)")
		},
		Assume: []string{"the checksums of the index are right (C14, C16, C17)", "MD5 does not collide", "other schedules are the subject of C24"}})
	eng.Register(&eng.Prop{ID: "C02", Gen: func(t string, emit func(eng.Case)) {
		hugePatches(hugeRequests, t, emit)
		patchCases(requests, t, emit)
	},
		Rule: "input: reference, local file, block size, number of matchers; execution: one schedule; distinct states: sizes and requested spans",
		Bounds: func(tier string) string {
			return pick(tier, "all pairs of files of up to 6 letters of ab (block sizes 1-3, 1-3 matchers) and 4-5 letters of abc; every one-place edit of files of 1-5 blocks; blocks planted at every offset; large files around the buffer sizes; whole patches of files beyond 2 and 4 GiB (sparse stand-ins, one real schedule)",
				"all pairs of files of up to 8 letters of ab (block sizes 1-4, 1-4 matchers) and 6 letters of abc; every one-place edit of files of 1-8 blocks; blocks planted at every offset; large files around the buffer sizes; whole patches of files beyond 2 and 4 GiB (sparse stand-ins, one real schedule)")
		},
		Assume: []string{"the checksums of the index are right (C14, C16, C17)", "a patch that fails is the subject of C01"}})
	eng.Register(&eng.Prop{ID: "C24", Gen: c24, Sched: true,
		Rule: "execution: schedule of all goroutines (channel, lock and atomic operations, and for part of the cases every statement of the packages concerned); distinct: by requested spans, matches and statistics",
		Bounds: func(tier string) string {
			return pick(tier, "files of 2-6 blocks, 2-3 matchers; 1-2 preemptions or departures from first-in-first-out", "files of 2-7 blocks, 2-3 matchers; 1-3 preemptions or departures from first-in-first-out")
		},
		Assume: []string{"memory accesses of different goroutines are sequentially consistent at the granularity of statements"}})
}
