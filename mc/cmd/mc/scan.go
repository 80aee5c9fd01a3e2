package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/comparer"
	"github.com/Redundancy/go-sync/filechecksum"
	"verif/mc/eng"
	"verif/mc/vs"
)

// ---- the specification of a scan ----

type scanSpec struct {
	required map[match]bool // matches that must be reported, each once
	allowed  map[match]bool // further true matches (of the short last block, overlapping the last match)
}

// specOf scans from scratch.
func specOf(ref, local []byte, bs int, base int64) scanSpec {
	blocks := map[string][]uint{}
	short := ""
	nb := nblocks(len(ref), bs)
	for b := 0; b < nb; b++ {
		c := string(blockOf(ref, bs, b))
		if len(c) < bs {
			short = c
			continue
		}
		blocks[c] = append(blocks[c], uint(b))
	}
	s := scanSpec{map[match]bool{}, map[match]bool{}}
	i := 0
	for i+bs <= len(local) {
		if l := blocks[string(local[i:i+bs])]; len(l) > 0 {
			for _, b := range l {
				s.required[match{b, int64(i) + base}] = true
			}
			i += bs
		} else {
			i++
		}
	}
	if short != "" && len(local) >= len(short) {
		o := len(local) - len(short)
		if string(local[o:]) == short {
			m := match{uint(nb - 1), int64(o) + base}
			if o >= i {
				s.required[m] = true
			} else {
				s.allowed[m] = true
			}
		}
	}
	return s
}

type scanResult struct {
	got    []match
	errs   []error
	after  int // results after an error
	counts [3]int64
}

func runScan(r io.Reader, bs int, base int64, ix comparer.Index) (s scanResult) {
	c := &comparer.Comparer{}
	if d, ok := r.(*script); ok {
		vs.Budget(20_000_000 + 2000*int64(len(d.data)))
	}
	s = drain(c.StartFindMatchingBlocks(r, base, filechecksum.NewFileChecksumGenerator(uint(bs)), ix))
	s.counts = [3]int64{c.Comparisons, c.WeakHashHits, c.StrongHashHits}
	return
}

func drain(c <-chan comparer.BlockMatchResult) (s scanResult) {
	for {
		m, ok := vs.Recv2(c)
		if !ok {
			return
		}
		if len(s.errs) > 0 {
			s.after++
		}
		if m.Err != nil {
			s.errs = append(s.errs, m.Err)
		} else {
			s.got = append(s.got, match{m.BlockIdx, m.ComparisonOffset})
		}
		if len(s.got)+len(s.errs) > 1<<22 {
			eng.Failf("the scan never ends")
			return
		}
	}
}

// compare checks a complete scan.
func (s scanSpec) compare(r scanResult) string {
	if len(r.errs) > 0 {
		return fmt.Sprintf("error %v", r.errs[0])
	}
	seen := map[match]bool{}
	for _, m := range r.got {
		if seen[m] {
			return fmt.Sprintf("match %v is reported twice", m)
		}
		seen[m] = true
		if !s.required[m] && !s.allowed[m] {
			return fmt.Sprintf("match %v is not true (or not in the scan); reported %v, want %v", m, r.got, keys(s.required))
		}
	}
	for m := range s.required {
		if !seen[m] {
			return fmt.Sprintf("match %v is missing; reported %v, want %v", m, clipM(r.got), keys(s.required))
		}
	}
	return ""
}

func clipM(m []match) []match {
	if len(m) > 20 {
		return m[:20]
	}
	return m
}

func keys(m map[match]bool) (r []match) {
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].off != r[j].off {
			return r[i].off < r[j].off
		}
		return r[i].b < r[j].b
	})
	return clipM(r)
}

// eager is an index in which every weak checksum is present, so that the strong checksum decides alone.
type eager map[string][]chunks.ChunkChecksum

func eagerOf(ref []byte, bs int) eager {
	e := eager{}
	for _, c := range chunksOf(ref, bs) {
		k := string(c.StrongChecksum)
		e[k] = append(e[k], c)
	}
	return e
}

func (e eager) FindWeakChecksum2(w []byte) interface{} { return string(w) }
func (e eager) FindStrongChecksum2(s []byte, weak interface{}) []chunks.ChunkChecksum {
	return e[string(s)]
}

// strict checks the weak checksum of every window it is asked about.
type strict struct {
	comparer.Index
	windows map[string]bool
	bad     string
}

func strictOf(ix comparer.Index, local []byte, bs int) *strict {
	s := &strict{Index: ix, windows: map[string]bool{}}
	for l := 0; l <= bs; l++ {
		for o := 0; o+l <= len(local); o++ {
			if l == bs || o+l == len(local) {
				s.windows[string(weakOf(local[o:o+l]))] = true
			}
		}
	}
	return s
}

func (s *strict) FindWeakChecksum2(w []byte) interface{} {
	if !s.windows[string(w)] {
		s.bad = fmt.Sprintf("no window of the stream has the weak checksum %v", w)
	}
	return s.Index.FindWeakChecksum2(w)
}

func checkScan(ref, local []byte, bs int, base int64) bool {
	s := specOf(ref, local, bs, base)
	ix := indexOf(ref, bs)
	r := runScan(newReader(local), bs, base, ix)
	eng.Eval(1)
	if e := s.compare(r); e != "" {
		eng.Failf("reference %s, stream %s, block size %d, base %d: %s", show(ref), show(local), bs, base, e)
		return false
	}
	return true
}

func checkScanEager(ref, local []byte, bs int, base int64) bool {
	s := specOf(ref, local, bs, base)
	r := runScan(newReader(local), bs, base, eagerOf(ref, bs))
	eng.Eval(1)
	if e := s.compare(r); e != "" {
		eng.Failf("reference %s, stream %s, block size %d, base %d, every weak checksum present: %s", show(ref), show(local), bs, base, e)
		return false
	}
	return true
}

// edits calls f with variants of a base file: bytes inserted, removed, changed, blocks moved.
func edits(ref []byte, bs int, f func(name string, local []byte)) {
	f("same", append([]byte(nil), ref...))
	cat := func(p ...[]byte) []byte { return bytes.Join(p, nil) }
	for p := 0; p <= len(ref); p++ {
		f(fmt.Sprintf("insert1@%d", p), cat(ref[:p], []byte{'#'}, ref[p:]))
		f(fmt.Sprintf("insert%d@%d", bs-1, p), cat(ref[:p], filler(77, bs-1), ref[p:]))
		f(fmt.Sprintf("truncate@%d", p), cat(ref[:p]))
		f(fmt.Sprintf("from@%d", p), cat(ref[p:]))
		if p < len(ref) {
			f(fmt.Sprintf("delete@%d", p), cat(ref[:p], ref[p+1:]))
			f(fmt.Sprintf("change@%d", p), cat(ref[:p], []byte{ref[p] ^ 0x40}, ref[p+1:]))
			f(fmt.Sprintf("rotate@%d", p), cat(ref[p:], ref[:p]))
		}
	}
	f("double", cat(ref, ref))
}

func c03(tier string, emit func(eng.Case)) {
	hugeScans(tier, emit)
	quick := tier == "quick"
	// all pairs of short strings
	type cfg struct {
		alpha    string
		bs       int
		ref, loc int
	}
	cfgs := []cfg{{"ab", 1, 4, 6}, {"ab", 2, 6, 8}, {"ab", 3, 7, 8}, {"ab", 4, 6, 9}, {"\x00\x01\x02", 3, 4, 6}, {"\x00\x01\x02", 2, 4, 6}, {"\x00\xff", 2, 5, 7}}
	if !quick {
		cfgs = []cfg{{"ab", 1, 5, 8}, {"ab", 2, 8, 10}, {"ab", 3, 8, 11}, {"ab", 4, 9, 10}, {"ab", 5, 8, 10}, {"\x00\x01\x02", 3, 6, 7}, {"\x00\x01\x02", 2, 5, 8}, {"\x00\xff", 2, 6, 9}, {"abc", 3, 6, 7}}
	}
	for _, c := range cfgs {
		words(c.alpha, 0, c.ref, func(w []byte) {
			ref := append([]byte(nil), w...)
			batch(emit, fmt.Sprintf("words-%x-bs%d-%x", c.alpha, c.bs, ref), func() {
				ix, ea := indexOf(ref, c.bs), eagerOf(ref, c.bs)
				n := 0
				words(c.alpha, 0, c.loc, func(local []byte) {
					if n > 2 {
						return
					}
					s := specOf(ref, local, c.bs, 0)
					if e := s.compare(runScan(newReader(local), c.bs, 0, ix)); e != "" {
						eng.Failf("reference %q, stream %q, block size %d: %s", ref, local, c.bs, e)
						n++
					}
					eng.Eval(1)
					if len(local) <= c.loc-2 {
						if e := s.compare(runScan(newReader(local), c.bs, 0, ea)); e != "" {
							eng.Failf("reference %q, stream %q, block size %d, every weak checksum present: %s", ref, local, c.bs, e)
							n++
						}
						st := strictOf(ix, local, c.bs)
						runScan(newReader(local), c.bs, 0, st)
						if st.bad != "" {
							eng.Failf("reference %q, stream %q, block size %d: %s", ref, local, c.bs, st.bad)
							n++
						}
						eng.Eval(2)
					}
					eng.State([]byte(fmt.Sprint(c.bs, len(ref), len(local), keys(s.required), keys(s.allowed))))
				})
			})
		})
	}
	// files of blocks, edited
	for _, bs := range []int{4, 5, 8, 16, 33} {
		for _, nb := range []int{1, 2, 3, 5} {
			for _, cut := range []int{0, 1, bs / 2, bs - 1} {
				batch(emit, fmt.Sprintf("edits-bs%d-n%d-cut%d", bs, nb, cut), func() {
					ref := filler(uint32(bs*nb), nb*bs-cut)
					for _, base := range []int64{0, 7, 1 << 31, 1 << 40} {
						good := true
						edits(ref, bs, func(name string, local []byte) {
							if good {
								good = checkScan(ref, local, bs, base) && (base != 0 || checkScanEager(ref, local, bs, base))
								eng.Outcome(fmt.Sprint(bs, nb, cut, base, name))
							}
						})
					}
					// repeated blocks
					rep := append(append(append([]byte(nil), ref...), ref...), ref[:len(ref)/2]...)
					good := true
					edits(rep, bs, func(name string, local []byte) {
						if good {
							good = checkScan(rep, local, bs, 3)
						}
					})
				})
			}
		}
	}
	// many blocks, large blocks, large values, long streams
	for _, bs := range []int{1, 2, 7, 64, 255, 256, 257, 1000, 65536, 65537} {
		for _, v := range valueFuncs {
			batch(emit, fmt.Sprintf("long-bs%d-%s", bs, v.name), func() {
				n := 3*bs + bs/3
				if bs > 60000 {
					n = bs + bs/3
				}
				if bs < 100 {
					n = 70*bs + bs/2
				}
				noise := filler(5, n)
				for i, ref := range [][]byte{bytesOf(n, v.f), noise, bytesOf(n, func(i int) byte { return noise[i] | 0x80 })} {
					gap := filler(99, bs/2+1)
					for j, local := range [][]byte{
						ref,
						bytes.Join([][]byte{gap, ref, gap[:1], ref[n/2:]}, nil),
						bytes.Join([][]byte{ref[bs/2:], bytesOf(bs, v.f), ref}, nil),
					} {
						if i == 0 && bs == 1 || i == 0 && v.name == "max" && bs < 100 { // every block is the same: quadratic
							local = local[:20*bs]
						}
						if !checkScan(ref, local, bs, int64(i)<<33) {
							return
						}
						eng.Outcome(fmt.Sprint(bs, v.name, i, j))
					}
				}
			})
		}
	}
	batch(emit, "many-blocks", func() {
		const bs = 4
		ref := filler(70, 70001*bs-1)
		local := bytes.Join([][]byte{{'x'}, ref[40000*bs:], {'y', 'z'}, ref[:40000*bs], ref[69990*bs:]}, nil)
		checkScan(ref, local, bs, 1)
	})
	// a block that the reference has very often
	for _, n := range pick(tier, []int{101, 300, 1001, 5000, 140001}, []int{101, 129, 257, 300, 513, 1001, 1025, 5000, 10001, 70001, 150000}) {
		batch(emit, fmt.Sprintf("often-%d", n), func() {
			one := filler(3, 4)
			ref := append(bytes.Repeat(one, n), filler(4, 11)...)
			for _, local := range [][]byte{one, bytes.Join([][]byte{{'x'}, one, ref[4*n:], one}, nil)} {
				if !checkScan(ref, local, 4, 9) {
					return
				}
				eng.Outcome(fmt.Sprint(n, len(local)))
			}
		})
	}
	batch(emit, "stream-300000", func() {
		ref := filler(1, 40*64+9)
		local := bytes.Join([][]byte{bytes.Repeat([]byte{255}, 100000), ref, bytes.Repeat([]byte{254, 255}, 50000), ref[64*3+5:], filler(8, 100000), ref}, nil)
		checkScan(ref, local, 64, 5)
	})
}

// ---- C04: reading ----

// errText reports whether the failure of the reader can be recognised.
func errText(got, want error) bool {
	return got != nil && (errors.Is(got, want) || strings.Contains(got.Error(), want.Error()))
}

func checkBroken(ref []byte, bs int, r *script, ix comparer.Index) bool {
	data := r.data
	s := runScan(r, bs, 11, ix)
	eng.Eval(1)
	what := fmt.Sprintf("reference %s, block size %d, stream %s, reads %v, fails with %v with data %v, empty reads %d", show(ref), bs, show(data), r.sizes, r.err, r.with, r.zero)
	if len(s.errs) == 0 {
		eng.Failf("%s: no error is reported (matches %v)", what, clipM(s.got))
		return false
	}
	if len(s.errs) > 1 || s.after > 0 {
		eng.Failf("%s: results follow the error: %d errors, %d results", what, len(s.errs), s.after)
		return false
	}
	if !errText(s.errs[0], r.err) {
		eng.Failf("%s: another error is reported: %v", what, s.errs[0])
		return false
	}
	for _, m := range s.got {
		o := int(m.off - 11)
		if int(m.b) >= nblocks(len(ref), bs) {
			eng.Failf("%s: match %v of no block", what, m)
			return false
		}
		b := blockOf(ref, bs, int(m.b))
		if o < 0 || o+len(b) > len(data) || !bytes.Equal(data[o:o+len(b)], b) {
			eng.Failf("%s: match %v is not true", what, m)
			return false
		}
	}
	return true
}

func c04(tier string, emit func(eng.Case)) {
	quick := tier == "quick"
	divided := func(ref, local []byte, bs int, sizes []int, ix comparer.Index) bool {
		spec := specOf(ref, local, bs, 11)
		for _, with := range []bool{false, true} {
			for zero := 0; zero < 3; zero++ {
				r := &script{data: local, sizes: sizes, with: with, zero: zero, err: io.EOF}
				eng.Eval(1)
				if e := spec.compare(runScan(r, bs, 11, ix)); e != "" {
					eng.Failf("reference %s, stream %s, block size %d, reads %v, end with data %v, empty reads %d: %s", show(ref), show(local), bs, sizes, with, zero, e)
					return false
				}
			}
		}
		return true
	}
	type cfg struct {
		alpha    string
		bs       int
		ref, loc int
	}
	cfgs := []cfg{{"ab", 1, 2, 5}, {"ab", 2, 4, 6}, {"ab", 3, 5, 7}, {"ab", 4, 5, 6}}
	if !quick {
		cfgs = []cfg{{"ab", 1, 3, 7}, {"ab", 2, 5, 7}, {"ab", 3, 6, 8}, {"ab", 4, 7, 8}, {"abc", 2, 4, 5}}
	}
	for _, c := range cfgs {
		words(c.alpha, 0, c.ref, func(w []byte) {
			ref := append([]byte(nil), w...)
			if len(ref) > 0 && ref[0] != c.alpha[0] {
				return // equal up to renaming
			}
			batch(emit, fmt.Sprintf("words-bs%d-%s-%s", c.bs, c.alpha, ref), func() {
				ix := indexOf(ref, c.bs)
				good := true
				words(c.alpha, 0, c.loc, func(local []byte) {
					compositions(len(local), func(sizes []int) {
						good = good && divided(ref, local, c.bs, sizes, ix)
					})
					// failing after these bytes
					for _, e := range readErrors {
						for _, with := range []bool{false, true} {
							for _, sizes := range [][]int{nil, {1}, {2}, {c.bs}, {1, c.bs}} {
								good = good && checkBroken(ref, c.bs, &script{data: local, sizes: sizes, with: with, err: e, zero: len(local) & 1}, ix)
							}
						}
					}
					eng.State([]byte(fmt.Sprintf("%d %s %s", c.bs, ref, local)))
				})
			})
		})
	}
	for _, bs := range []int{4, 16, 64} {
		for _, nb := range []int{1, 3, 6} {
			for _, cut := range []int{0, 1, bs - 1} {
				batch(emit, fmt.Sprintf("edits-bs%d-n%d-cut%d", bs, nb, cut), func() {
					ref := filler(uint32(bs*nb), nb*bs-cut)
					ix := indexOf(ref, bs)
					k := 0
					good := true
					edits(ref, bs, func(name string, local []byte) {
						k++
						for _, sizes := range [][]int{{1}, {3}, {bs - 1}, {bs}, {bs + 1}, {2*bs + 1, 1, 1}, {1, bs}} {
							good = good && divided(ref, local, bs, sizes, ix)
						}
						for _, e := range readErrors[:2] {
							good = good && checkBroken(ref, bs, &script{data: local, sizes: []int{1 + k%5}, with: k%2 == 0, err: e}, ix)
							good = good && checkBroken(ref, bs, &script{data: local, with: k%2 == 1, err: e}, ix)
						}
						eng.Outcome(fmt.Sprint(bs, nb, cut, name))
					})
				})
			}
		}
	}
}

func init() {
	eng.Register(&eng.Prop{ID: "C03", Gen: c03,
		Rule: "input: reference, stream, block size, base offset; compared with a scan from scratch; recorded states: distinct sets of matches by sizes; distinct: by edit",
		Bounds: func(tier string) string {
			return pick(tier, "all pairs of words over two letters up to 7/9 letters (block sizes 1-4) and over three up to 4/6; every single edit of files of 1-5 blocks of 4-33 bytes; blocks that occur up to 140001 times; structured files of up to 300 KB and blocks of up to 65537 bytes; streams beyond 4 GiB (one real schedule)",
				"all pairs of words over two letters up to 9/11 letters (block sizes 1-5) and over three up to 6/8; edits, structured files and streams beyond 4 GiB as in quick, also 2 and 8 GiB")
		},
		Assume: []string{"a short last block that overlaps the previous match may be reported or not"}})
	eng.Register(&eng.Prop{ID: "C04", Gen: c04,
		Rule: "input: reference, stream, division into reads, empty reads, end or failure with or after the last bytes; recorded states: distinct pairs of reference and stream",
		Bounds: func(tier string) string {
			return pick(tier, "all pairs of words over two letters up to 5/7 letters with every division into reads, and with a failure after every prefix; edited files with selected divisions",
				"all pairs of words over two letters up to 7/8 letters with every division and failure")
		}})
}
