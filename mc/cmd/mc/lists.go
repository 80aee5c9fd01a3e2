package main

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"sort"
	"strings"

	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/comparer"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/util/readers"
	"verif/mc/eng"
	"verif/mc/vs"
)

// ---- C27: stream helpers ----

// readAll reads with buffers of the given sizes (the last is repeated) until an error.
func readAll(r io.Reader, sizes []int, limit int) (got []byte, err error, bad string) {
	k := 0
	zeros := 0
	for {
		n := sizes[len(sizes)-1]
		if k < len(sizes) {
			n = sizes[k]
		}
		k++
		buf := bytes.Repeat([]byte{0xcc}, n+3)
		m, e := r.Read(buf[:n])
		if m < 0 || m > n {
			return got, e, fmt.Sprintf("a read of %d bytes returned %d", n, m)
		}
		for _, c := range buf[n:] {
			if c != 0xcc {
				return got, e, "a read wrote behind its buffer"
			}
		}
		got = append(got, buf[:m]...)
		if e != nil {
			return got, e, ""
		}
		if m == 0 {
			if zeros++; zeros > 100 {
				return got, e, "reads return nothing for ever"
			}
		} else {
			zeros = 0
		}
		if limit > 0 && len(got) >= limit {
			return got[:limit], nil, ""
		}
		if len(got) > 1<<22 {
			return got, nil, "never ends"
		}
	}
}

func checkStream(what string, make func() io.Reader, want []byte, sizes []int) {
	got, err, bad := readAll(make(), sizes, 0)
	switch {
	case bad != "":
		eng.Failf("%s, reads of %v: %s", what, sizes, bad)
	case err != io.EOF:
		eng.Failf("%s, reads of %v: ends with %v", what, sizes, err)
	case !bytes.Equal(got, want):
		eng.Failf("%s, reads of %v: delivers %d bytes %s, want %d bytes %s (first difference at %d)", what, sizes, len(got), show(got), len(want), show(want), diffAt(got, want))
	}
	eng.Eval(1)
	eng.Outcome(what + fmt.Sprint(sizes))
}

func nonRepeating(start, n int) []byte {
	const modulo, inc = 87178291199, 17180131327
	b := make([]byte, n)
	v := start
	for i := range b {
		b[i] = byte(uint32(v))
		v = (v + inc) % modulo
	}
	return b
}

func c27(tier string, emit func(eng.Case)) {
	maxN := pick(tier, 9, 12)
	uniform := []struct {
		name string
		f    func(int) io.Reader
		v    byte
	}{{"zero", readers.ZeroReader, 0}, {"one", readers.OneReader, 1}}
	splits := func(n int, f func([]int)) {
		compositions(n, f)
		// the last read asks for more than there is, and reads after the end
		for k := 1; k <= n+2; k++ {
			f([]int{k})
		}
		f([]int{1, n + 5})
		f([]int{n + 1, 1})
	}
	for _, u := range uniform {
		for n := 0; n <= maxN; n++ {
			batch(emit, fmt.Sprintf("%s-%d", u.name, n), func() {
				splits(n, func(s []int) {
					if len(s) == 0 {
						s = []int{1}
					}
					checkStream(fmt.Sprintf("%s reader of %d bytes", u.name, n), func() io.Reader { return u.f(n) }, bytes.Repeat([]byte{u.v}, n), s)
				})
			})
		}
		for _, n := range []int{511, 512, 513, 4096, 65535, 65536, 65537, 100000} {
			batch(emit, fmt.Sprintf("%s-%d", u.name, n), func() {
				for _, s := range [][]int{{1}, {7}, {512}, {n}, {n - 1, 1}, {n + 1}, {n - 1, 9}, {1, n - 1, 4}, {32768}} {
					checkStream(fmt.Sprintf("%s reader of %d bytes", u.name, n), func() io.Reader { return u.f(n) }, bytes.Repeat([]byte{u.v}, n), s)
				}
			})
		}
	}
	for _, start := range []int{0, 1, 2, 5, 255, 256, 1 << 20, 1 << 31, 1 << 32, 87178291198} {
		batch(emit, fmt.Sprintf("nonrepeating-%d", start), func() {
			want := nonRepeating(start, 70000)
			what := fmt.Sprintf("non-repeating sequence from %d", start)
			for n := 1; n <= maxN; n++ {
				compositions(n, func(s []int) {
					got, err, bad := readAll(readers.NewNonRepeatingSequence(start), s, n)
					if err != nil || bad != "" || !bytes.Equal(got, want[:n]) {
						eng.Failf("%s, reads of %v: %v %s %s, want %s", what, s, err, bad, show(got), show(want[:n]))
					}
					eng.Eval(1)
				})
				splits(n, func(s []int) {
					checkStream(fmt.Sprintf("%s of %d bytes", what, n), func() io.Reader { return readers.NewSizedNonRepeatingSequence(start, int64(n)) }, want[:n], s)
				})
			}
			checkStream(what+" of 0 bytes", func() io.Reader { return readers.NewSizedNonRepeatingSequence(start, 0) }, nil, []int{1})
			for _, s := range [][]int{{1}, {3}, {4096}, {70000}, {65536, 1}, {33333}} {
				checkStream(what+" of 70000 bytes", func() io.Reader { return readers.NewSizedNonRepeatingSequence(start, 70000) }, want, s)
			}
		})
	}
	// injection
	maxB := pick(tier, 5, 6)
	type src struct {
		name string
		make func(b []byte) io.Reader
	}
	srcs := []src{
		{"plain", func(b []byte) io.Reader { return bytes.NewReader(b) }},
		{"byte by byte", func(b []byte) io.Reader { return &script{data: b, sizes: []int{1}, err: io.EOF} }},
		{"end with data", func(b []byte) io.Reader { return &script{data: b, err: io.EOF, with: true} }},
		{"empty reads", func(b []byte) io.Reader { return &script{data: b, sizes: []int{2}, zero: 1, err: io.EOF} }},
	}
	for b := 0; b <= maxB; b++ {
		for i := 0; i <= 3; i++ {
			for off := -1; off <= maxB+2; off++ {
				for _, s1 := range srcs {
					for _, s2 := range srcs {
						batch(emit, fmt.Sprintf("inject-%d-%d-at%d-%s-%s", b, i, off, s1.name, s2.name), func() {
							base, inj := filler(1, b), filler(2, i)
							o := off
							if o < 0 {
								o = 0
							}
							if o > b {
								o = b
							}
							want := append(append(append([]byte(nil), base[:o]...), inj...), base[o:]...)
							splits(len(want), func(s []int) {
								if len(s) == 0 {
									s = []int{1}
								}
								checkStream(fmt.Sprintf("injection of %d bytes at %d into %d (%s, %s)", i, off, b, s1.name, s2.name), func() io.Reader {
									return readers.InjectedReader(int64(off), s1.make(base), s2.make(inj))
								}, want, s)
							})
						})
					}
				}
			}
		}
	}
	// several readers in sequence, up to a limit
	for k := 0; k <= 3; k++ {
		tuples(k, 4, func(l []int) {
			l = append([]int(nil), l...)
			total := 0
			for _, n := range l {
				total += n
			}
			batch(emit, fmt.Sprintf("sequence-%v", l), func() {
				var all []byte
				parts := make([][]byte, len(l))
				for i, n := range l {
					parts[i] = filler(uint32(i+1), n)
					all = append(all, parts[i]...)
				}
				for _, size := range []int64{-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 1 << 31, 1 << 32, 1<<63 - 1} {
					want := all
					if size < 0 {
						want = nil
					} else if size < int64(len(all)) {
						want = all[:size]
					}
					for _, s1 := range srcs {
						for _, s2 := range srcs {
							splits(len(want), func(s []int) {
								if len(s) == 0 {
									s = []int{1}
								}
								checkStream(fmt.Sprintf("readers of %v bytes in sequence up to %d (%s, %s)", l, size, s1.name, s2.name), func() io.Reader {
									var r []io.Reader
									for i, b := range parts {
										r = append(r, []src{s1, s2}[i%2].make(b))
									}
									return readers.SequenceLimit(size, r...)
								}, want, s)
							})
							if len(l) < 2 && s1.name != s2.name {
								break
							}
						}
					}
				}
			})
		})
	}
	batch(emit, "sequence-long", func() {
		seq := nonRepeating(9, 140000)
		for _, n := range []int{0, 1, 511, 512, 513, 32768, 65535, 65536, 65537, 70000, 139999, 140000} {
			for _, cut := range []int{1, 300, 65536, 70000, 139999} {
				for size := n - 1; size <= n+1; size++ {
					want := seq
					if size < 0 {
						want = nil
					} else if size < len(seq) {
						want = seq[:size]
					}
					for _, s := range [][]int{{512}, {1, 40000}, {size + 1}, {size + 2}, {65536}, {200000}} {
						checkStream(fmt.Sprintf("readers of %d and %d bytes in sequence up to %d", cut, len(seq)-cut, size), func() io.Reader {
							return readers.SequenceLimit(int64(size), bytes.NewReader(seq[:cut]), bytes.NewReader(seq[cut:]))
						}, want, s)
						checkStream(fmt.Sprintf("a reader of %d bytes in sequence up to %d", len(seq), size), func() io.Reader {
							return readers.SequenceLimit(int64(size), bytes.NewReader(seq))
						}, want, s)
					}
				}
			}
		}
	})
	// combinations of the helpers
	batch(emit, "combined", func() {
		for _, n := range []int{0, 1, 5, 600} {
			for _, k := range []int{0, 1, 7} {
				for off := 0; off <= n+1; off++ {
					o := off
					if o > n {
						o = n
					}
					seq := nonRepeating(3, n)
					want := append(append(append([]byte(nil), seq[:o]...), bytes.Repeat([]byte{1}, k)...), seq[o:]...)
					for _, s := range [][]int{{1}, {4}, {n + k + 2}, {512}} {
						checkStream(fmt.Sprintf("%d ones at %d in a sequence of %d", k, off, n), func() io.Reader {
							return readers.InjectedReader(int64(off), readers.NewSizedNonRepeatingSequence(3, int64(n)), readers.OneReader(k))
						}, want, s)
					}
				}
			}
		}
	})
}

// ---- C13: block ranges ----

func c13(tier string, emit func(eng.Case)) {
	sizes := []uint64{1, 2, 3, 5, 8, 1000, 1 << 13, 1 << 20, 1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 7}
	ids := []uint{}
	for _, b := range []uint{0, 1 << 8, 1 << 16, 1 << 20, 1<<31 - 4, 1 << 31, 1<<32 - 4, 1 << 32, 1 << 40} {
		for k := uint(0); k < 9; k++ {
			ids = append(ids, b+k)
		}
	}
	limit := new(big.Int).Lsh(big.NewInt(1), 62)
	for _, bs := range sizes {
		batch(emit, fmt.Sprintf("offsets-bs%d", bs), func() {
			for _, id := range ids {
				off := func(k uint) *big.Int {
					return new(big.Int).Mul(new(big.Int).SetUint64(uint64(k)), new(big.Int).SetUint64(bs))
				}
				if off(id+1).Cmp(limit) > 0 {
					continue
				}
				s, e := off(id).Int64(), off(id+1).Int64()
				files := []int64{0}
				for _, f := range []int64{1, s - 1, s, s + 1, (s + e) / 2, e - 1, e, e + 1, e + int64(bs), 1 << 31, 1<<32 + 5} {
					if f > 0 {
						files = append(files, f)
					}
				}
				for _, fs := range files {
					ws, we := s, e
					if fs != 0 && ws > fs {
						ws = fs
					}
					if fs != 0 && we > fs {
						we = fs
					}
					for name, r := range map[string]blocksources.BlockSourceOffsetResolver{
						"struct": &blocksources.FixedSizeBlockResolver{BlockSize: bs, FileSize: fs},
						"made":   blocksources.MakeFileSizedBlockResolver(bs, fs),
						"split":  &blocksources.FixedSizeBlockResolver{BlockSize: bs, FileSize: fs, MaxDesiredRequestSize: 3 * bs},
					} {
						if gs, ge := r.GetBlockStartOffset(id), r.GetBlockEndOffset(id); gs != ws || ge != we {
							eng.Failf("block %d of %d bytes, file of %d (%s): bytes %d-%d, want %d-%d", id, bs, fs, name, gs, ge, ws, we)
						}
						if id > 0 {
							if p := r.GetBlockEndOffset(id - 1); p != ws {
								eng.Failf("block %d of %d bytes, file of %d (%s): starts at %d, the block before ends at %d", id, bs, fs, name, ws, p)
							}
						}
						eng.Eval(1)
					}
					if fs == 0 {
						r := blocksources.MakeNullFixedSizeResolver(bs)
						if gs, ge := r.GetBlockStartOffset(id), r.GetBlockEndOffset(id); gs != s || ge != e {
							eng.Failf("block %d of %d bytes, unknown file size: bytes %d-%d, want %d-%d", id, bs, gs, ge, s, e)
						}
					}
					eng.Outcome(fmt.Sprint(bs, id, fs))
				}
			}
		})
	}
	check := func(bs, max uint64, a, b uint) {
		for _, fs := range []int64{0, int64(bs)*int64(b) + 1} {
			r := &blocksources.FixedSizeBlockResolver{BlockSize: bs, FileSize: fs, MaxDesiredRequestSize: max}
			q := r.SplitBlockRangeToDesiredSize(a, b)
			next := a
			good := len(q) > 0
			for _, p := range q {
				if p.StartBlockID != next || p.EndBlockID < p.StartBlockID || p.EndBlockID > b {
					good = false
					break
				}
				n := uint64(p.EndBlockID - p.StartBlockID + 1)
				if max != 0 && n > 1 && n*bs > max {
					eng.Failf("blocks %d-%d of %d bytes, desired size %d: a piece of %d blocks", a, b, bs, max, n)
				}
				next = p.EndBlockID + 1
			}
			if !good || next != b+1 {
				if len(q) > 10 {
					q = q[:10]
				}
				eng.Failf("blocks %d-%d of %d bytes, desired size %d, file size %d: pieces %v", a, b, bs, max, fs, q)
			}
			eng.Eval(1)
			eng.Outcome(fmt.Sprint(bs, max, a, b, len(q)))
		}
	}
	for _, bs := range []uint64{1, 2, 3, 4, 7, 10, 1024, 1 << 31, 1 << 32} {
		for _, base := range []uint{0, 1, 1 << 16, 1<<31 - 2, 1<<32 - 2, 1 << 33, 1 << 40} {
			batch(emit, fmt.Sprintf("split-bs%d-from%d", bs, base), func() {
				n := uint(pick(tier, 14, 40))
				maxes := []uint64{0, 1, bs - 1, bs, bs + 1}
				for k := uint64(2); k <= uint64(n)+2; k++ {
					maxes = append(maxes, k*bs-1, k*bs, k*bs+1)
				}
				for _, max := range maxes {
					for a := base; a < base+4; a++ {
						for b := a; b < a+n; b++ {
							check(bs, max, a, b)
						}
					}
				}
			})
		}
	}
	// desired sizes of very many blocks
	batch(emit, "split-wide", func() {
		for _, bs := range []uint64{1, 2, 3, 16, 1000, 8192} {
			for _, per := range []uint64{255, 256, 257, 1<<15 - 1, 1 << 15, 1<<16 - 1, 1 << 16, 1<<16 + 1, 1 << 17, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 33, 1 << 40} {
				for _, a := range []uint{0, 1, 3, 1<<32 - 1} {
					for _, n := range []uint{1, 2, 5, 300} {
						check(bs, per*bs, a, a+n-1)
						check(bs, per*bs+bs-1, a, a+n-1)
						check(bs, per*bs-1, a, a+n-1)
					}
					if per <= 1<<17 {
						for _, n := range []uint64{per - 1, per, per + 1, 2 * per, 2*per + 1, 3*per - 1} {
							check(bs, per*bs, a, a+uint(n)-1)
						}
					}
				}
			}
			check(bs, 1<<64-1, 0, 9)
			check(bs, 1<<63, 5, 5)
		}
	})
	batch(emit, "split-long", func() {
		for _, n := range []uint{63, 64, 65, 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537} {
			for _, per := range []uint64{1, 2, 3, 64, 255, 256, 257, 4096} {
				for _, bs := range []uint64{1, 4, 8192} {
					check(bs, per*bs, 0, n-1)
					check(bs, per*bs, 5, n+4)
					check(bs, per*bs+bs-1, 1, n)
				}
			}
		}
	})
}

// ---- C06: missing blocks ----

func checkMissing(spans comparer.BlockSpanList, max uint) {
	in := append(comparer.BlockSpanList(nil), spans...)
	out := spans.GetMissingBlocks(max)
	for i := range in {
		if in[i] != spans[i] {
			eng.Failf("%v: the list of found spans was changed", in)
			return
		}
	}
	// sorted and disjoint, and a partition together with the found spans
	type iv struct{ a, b uint }
	var all []iv
	for i, s := range out {
		if s.EndBlock < s.StartBlock || i > 0 && s.StartBlock <= out[i-1].EndBlock {
			eng.Failf("found %v, last block %d: missing spans %v are not sorted and disjoint", in, max, out)
			return
		}
		all = append(all, iv{s.StartBlock, s.EndBlock})
	}
	for _, s := range in {
		all = append(all, iv{s.StartBlock, s.EndBlock})
	}
	sort.Slice(all, func(i, j int) bool { return all[i].a < all[j].a })
	next := uint(0)
	for _, x := range all {
		if x.a != next {
			eng.Failf("found %v, last block %d: missing %v do not complete them (at block %d)", in, max, out, next)
			return
		}
		next = x.b + 1
	}
	if next != max+1 {
		eng.Failf("found %v, last block %d: missing %v end before block %d", in, max, out, next)
	}
	eng.Eval(1)
}

func c06(tier string, emit func(eng.Case)) {
	// every block is missing, starts a span or continues one
	n := pick(tier, 12, 14)
	for k := 1; k <= n; k++ {
		for first := 0; first < 2; first++ {
			for second := 0; second < 3; second++ {
				if k == 1 && second > 0 {
					continue
				}
				batch(emit, fmt.Sprintf("lists-%d-%d-%d", k, first, second), func() {
					rest := k - 2
					if rest < 0 {
						rest = 0
					}
					tuples(rest, 3, func(t []int) {
						var l comparer.BlockSpanList
						v := append([]int{first, second}, t...)[:k]
						open := false
						for b, x := range v {
							switch {
							case x == 0:
								open = false
							case x == 1:
								l = append(l, comparer.BlockSpan{StartBlock: uint(b), EndBlock: uint(b), ComparisonStartOffset: int64(1000 - 7*b)})
								open = true
							case !open:
								return
							default:
								l[len(l)-1].EndBlock = uint(b)
							}
						}
						checkMissing(l, uint(k-1))
						eng.State([]byte(fmt.Sprint(v)))
					})
				})
			}
		}
	}
	// runs of very different lengths
	lens := []uint{1, 2, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1 << 32, 1 << 40}
	for i := range lens {
		batch(emit, fmt.Sprintf("long-%d", i), func() {
			tuples(pick(tier, 3, 4), len(lens), func(t []int) {
				runs := append([]int{i}, t...)
				for kinds := 0; kinds < 1<<len(runs); kinds++ {
					var l comparer.BlockSpanList
					at := uint(0)
					for j, r := range runs {
						if kinds>>j&1 == 1 {
							l = append(l, comparer.BlockSpan{StartBlock: at, EndBlock: at + lens[r] - 1})
						}
						at += lens[r]
					}
					checkMissing(l, at-1)
				}
				eng.State([]byte(fmt.Sprint(runs)))
			})
		})
	}
	// many spans
	batch(emit, "many", func() {
		for _, n := range []int{63, 64, 65, 255, 256, 257, 1000, 5000} {
			for _, gap := range []int{0, 1, 2, 3} {
				for _, start := range []int{0, 1, 5} {
					for _, tail := range []int{0, 1, 4} {
						var l comparer.BlockSpanList
						at := uint(start)
						for i := 0; i < n; i++ {
							w := uint(i % 3)
							l = append(l, comparer.BlockSpan{StartBlock: at, EndBlock: at + w, ComparisonStartOffset: int64(i)})
							at += w + 1 + uint(gap)
						}
						checkMissing(l, l[n-1].EndBlock+uint(tail))
					}
				}
			}
		}
	})
	batch(emit, "none", func() {
		for _, m := range []uint{0, 1, 2, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 40} {
			checkMissing(nil, m)
			checkMissing(comparer.BlockSpanList{}, m)
			checkMissing(comparer.BlockSpanList{{StartBlock: m, EndBlock: m}}, m)
			checkMissing(comparer.BlockSpanList{{StartBlock: 0, EndBlock: m}}, m)
			checkMissing(comparer.BlockSpanList{{StartBlock: 0, EndBlock: 0}}, m)
		}
	})
}

// ---- C16: index ----

type idxEntry struct{ w, s int }

var idxWeak = [][]byte{{1, 0, 0, 0}, {1, 0, 0, 1}, {2, 0, 0, 0}, {1, 1, 0, 0}, {0, 0, 0, 0}, {255, 255, 255, 255}}
var idxStrong = [][]byte{[]byte("aaaaaaaaaaaaaaaa"), []byte("aaaaaaaaaaaaaaab"), []byte("baaaaaaaaaaaaaaa"), {255, 0, 128, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}}

func idxChunks(e []idxEntry, order []int) []chunks.ChunkChecksum {
	c := make([]chunks.ChunkChecksum, len(e))
	for i, k := range order {
		c[i] = chunks.ChunkChecksum{
			ChunkOffset:    uint(k),
			Size:           4,
			WeakChecksum:   append([]byte(nil), idxWeak[e[k].w]...),
			StrongChecksum: append([]byte(nil), idxStrong[e[k].s]...),
		}
	}
	return c
}

func idxExpect(e []idxEntry, w, s int) string {
	var r []int
	for k, x := range e {
		if x.w == w && x.s == s {
			r = append(r, k)
		}
	}
	return fmt.Sprint(r)
}

// idxQuery looks up one pair.
func idxQuery(ix *index.ChecksumIndex, e []idxEntry, w, s int) string {
	weak := ix.FindWeakChecksum2(append([]byte(nil), idxWeak[w]...))
	has := false
	for _, x := range e {
		has = has || x.w == w
	}
	if has != (weak != nil) {
		return fmt.Sprintf("weak checksum %v: present is %v, want %v", idxWeak[w], weak != nil, has)
	}
	if weak == nil {
		return ""
	}
	list := ix.FindStrongChecksum2(append([]byte(nil), idxStrong[s]...), weak)
	var got []int
	for _, c := range list {
		got = append(got, int(c.ChunkOffset))
		if !bytes.Equal(c.WeakChecksum, idxWeak[w]) || !bytes.Equal(c.StrongChecksum, idxStrong[s]) {
			return fmt.Sprintf("lookup of %d/%d returns block %d with other checksums", w, s, c.ChunkOffset)
		}
	}
	sort.Ints(got)
	if want := idxExpect(e, w, s); fmt.Sprint(got) != want {
		return fmt.Sprintf("lookup of weak %d strong %d gives blocks %v, want %s", w, s, got, want)
	}
	return ""
}

func checkIndex(e []idxEntry, order []int, nw, ns int) {
	in := idxChunks(e, order)
	ix := index.MakeChecksumIndex(in)
	// two rounds, the second backwards: lookups must not influence each other
	for round := 0; round < 2; round++ {
		for w := 0; w < nw; w++ {
			for s := 0; s < ns; s++ {
				a, b := w, s
				if round == 1 {
					a, b = nw-1-w, ns-1-s
				}
				if m := idxQuery(ix, e, a, b); m != "" {
					eng.Failf("entries (weak, strong) %v in order %v: %s", e, order, m)
					return
				}
				eng.Eval(1)
			}
		}
	}
	if ix.BlockCount != len(e) || ix.WeakCount() != len(e) {
		eng.Failf("entries %v: counts %d and %d", e, ix.BlockCount, ix.WeakCount())
	}
}

func perms(n int, f func([]int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(p)
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

func identity(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	return p
}

func c16(tier string, emit func(eng.Case)) {
	nw, ns := 4, 3
	maxLen := pick(tier, 5, 6)
	for n := 0; n <= maxLen; n++ {
		w, s := nw, ns
		if n >= 5 { // fewer different checksums for the longer lists
			w, s = 3, 2
		}
		first := w * s
		if n == 0 {
			first = 1
		}
		for f := 0; f < first; f++ {
			batch(emit, fmt.Sprintf("lists-%d-%d", n, f), func() {
				rest := n - 1
				if rest < 0 {
					rest = 0
				}
				tuples(rest, w*s, func(t []int) {
					v := append([]int{f}, t...)[:n]
					e := make([]idxEntry, n)
					for i, x := range v {
						e[i] = idxEntry{x / s, x % s}
					}
					checkIndex(e, identity(n), nw+1, ns+1)
					rev := identity(n)
					for i := range rev {
						rev[i] = n - 1 - i
					}
					checkIndex(e, rev, nw+1, ns+1)
					eng.State([]byte(fmt.Sprint(v)))
				})
			})
		}
	}
	// all orders of one list
	for i, e := range [][]idxEntry{
		{{0, 0}, {0, 1}, {0, 2}, {0, 0}, {0, 1}, {0, 2}},
		{{0, 0}, {1, 0}, {2, 0}, {0, 0}, {1, 1}, {3, 2}},
		{{4, 3}, {5, 3}, {4, 0}, {5, 0}, {4, 3}, {0, 3}},
		{{0, 3}, {0, 0}, {0, 3}, {0, 2}, {0, 1}, {0, 3}},
	} {
		batch(emit, fmt.Sprintf("orders-%d", i), func() {
			perms(len(e), func(p []int) {
				checkIndex(e, p, len(idxWeak), len(idxStrong))
				eng.State([]byte(fmt.Sprint(i, p)))
			})
		})
	}
	// long lists of duplicates
	for _, n := range []int{10, 64, 100, 256, 257, 1000} {
		for pat := 0; pat < 6; pat++ {
			batch(emit, fmt.Sprintf("long-%d-%d", n, pat), func() {
				e := make([]idxEntry, n)
				for i := range e {
					switch pat {
					case 0: // all the same
					case 1:
						e[i] = idxEntry{0, i % 4}
					case 2:
						e[i] = idxEntry{i % 6, i / 6 % 4}
					case 3:
						e[i] = idxEntry{i % 2, 3 - i*4/n}
					case 4:
						e[i] = idxEntry{0, 2}
						if i == n/2 {
							e[i].s = 1
						}
					case 5:
						e[i] = idxEntry{i % 2, 0}
						if i == n-1 {
							e[i].s = 3
						}
					}
				}
				checkIndex(e, identity(n), len(idxWeak), len(idxStrong))
				p := identity(n)
				for i := range p {
					p[i] = (i*7919 + 3) % n
				}
				if n%7919 != 0 {
					checkIndex(e, p, len(idxWeak), len(idxStrong))
				}
			})
		}
	}
	// many different weak checksums: one per low byte, and many with the same low byte
	for pat := 0; pat < 3; pat++ {
		batch(emit, fmt.Sprintf("wide-%d", pat), func() {
			const n = 2000
			in := make([]chunks.ChunkChecksum, n)
			key := func(i int) []byte {
				switch pat {
				case 0:
					return []byte{byte(i), byte(i >> 8), 0, 0}
				case 1:
					return []byte{7, byte(i), byte(i >> 8), 0}
				}
				return []byte{byte(i >> 8), 0, 0, byte(i)}
			}
			for i := range in {
				in[i] = chunks.ChunkChecksum{ChunkOffset: uint(i), WeakChecksum: key(i), StrongChecksum: strongOf(key(i))}
			}
			ix := index.MakeChecksumIndex(in)
			for i := 0; i < n; i++ {
				w := ix.FindWeakChecksum2(key(i))
				if w == nil {
					eng.Failf("weak checksum %v is not found", key(i))
					return
				}
				l := ix.FindStrongChecksum2(strongOf(key(i)), w)
				if len(l) != 1 || l[0].ChunkOffset != uint(i) {
					eng.Failf("lookup of %v finds %v", key(i), l)
					return
				}
				if l := ix.FindStrongChecksum2(strongOf([]byte("other")), w); len(l) != 0 {
					eng.Failf("lookup of %v with another strong checksum finds %v", key(i), l)
				}
				eng.Eval(3)
			}
			for _, a := range [][]byte{{7, 0, 9, 9}, {9, 9, 9, 9}, {255, 255, 255, 254}} {
				if ix.FindWeakChecksum2(a) != nil {
					eng.Failf("weak checksum %v is found", a)
				}
			}
		})
	}
	// checksums that differ in a single bit
	batch(emit, "bits", func() {
		for _, base := range [][]byte{{0, 0, 0, 0}, {0x3c, 0x71, 0x9a, 0xe5}, {255, 255, 255, 255}} {
			flip := func(b []byte, i int) []byte {
				b = append([]byte(nil), b...)
				b[i/8] ^= 1 << (i % 8)
				return b
			}
			strong := strongOf(base)
			one := index.MakeChecksumIndex([]chunks.ChunkChecksum{{ChunkOffset: 5, WeakChecksum: base, StrongChecksum: strong}})
			for i := 0; i < 8*len(strong); i++ {
				if l := one.FindStrongChecksum2(flip(strong, i), one.FindWeakChecksum2(base)); len(l) != 0 {
					eng.Failf("strong checksum %x is found as %x", strong, flip(strong, i))
				}
				eng.Eval(1)
			}
			for i := 0; i < 32; i++ {
				if one.FindWeakChecksum2(flip(base, i)) != nil {
					eng.Failf("weak checksum %x is found as %x", base, flip(base, i))
				}
				for _, order := range [][]int{{0, 1}, {1, 0}} {
					w := [][]byte{base, flip(base, i)}
					// the same strong checksum, and another one
					for _, st := range [][][]byte{{strong, strong}, {strong, flip(strong, 4*i)}} {
						var in []chunks.ChunkChecksum
						for _, k := range order {
							in = append(in, chunks.ChunkChecksum{ChunkOffset: uint(k), WeakChecksum: w[k], StrongChecksum: st[k]})
						}
						ix := index.MakeChecksumIndex(in)
						for k := range w {
							l := ix.FindStrongChecksum2(st[k], ix.FindWeakChecksum2(w[k]))
							if len(l) != 1 || l[0].ChunkOffset != uint(k) {
								eng.Failf("weak checksums %x and %x: lookup of %x finds %v", w[0], w[1], w[k], l)
							}
							if !bytes.Equal(st[0], st[1]) {
								if l := ix.FindStrongChecksum2(st[1-k], ix.FindWeakChecksum2(w[k])); len(l) != 0 {
									eng.Failf("weak checksums %x and %x: lookup of %x with the other strong checksum finds %v", w[0], w[1], w[k], l)
								}
							}
							eng.Eval(2)
						}
					}
				}
			}
		}
	})
	// concurrent lookups: all interleavings up to a number of preemptions
	lists := [][]idxEntry{
		{{0, 0}, {0, 1}, {0, 0}},
		{{0, 0}, {1, 0}, {0, 2}, {1, 1}},
		{{0, 0}},
	}
	queries := []idxEntry{{0, 0}, {0, 1}, {1, 0}, {2, 0}, {0, 2}}
	for i, e := range lists {
		for q1 := range queries {
			for q2 := range queries {
				emit(eng.Case{Key: fmt.Sprintf("concurrent-%d-%d-%d", i, q1, q2), Bound: int32(pick(tier, 2, 3)), Opts: vs.Opts{Mask: 1 << 5, Blocked: 1},
					Body: func() {
						ix := index.MakeChecksumIndex(idxChunks(e, identity(len(e))))
						ended := 0
						for _, q := range []int{q1, q2} {
							vs.Go2(func() {
								if m := idxQuery(ix, e, queries[q].w, queries[q].s); m != "" {
									eng.Failf("entries %v, concurrent lookups %v and %v: %s", e, queries[q1], queries[q2], m)
								}
								ended++
							})
						}
						vs.Quiesce()
						if ended != 2 {
							eng.Failf("a lookup does not end")
						}
						for _, q := range []int{q1, q2} {
							if m := idxQuery(ix, e, queries[q].w, queries[q].s); m != "" {
								eng.Failf("entries %v, after concurrent lookups %v and %v: %s", e, queries[q1], queries[q2], m)
							}
						}
						vs.Outcome("ok")
					}})
			}
		}
	}
}

// ---- C17: loading checksums ----

func checkLoad(data []byte, weak, strong int, r *script, what string) {
	c, err := chunks.LoadChecksumsFromReader(r, weak, strong)
	entry := weak + strong
	whole := len(data)%entry == 0 && r.err == io.EOF
	eng.Eval(1)
	if !whole {
		if err == nil {
			eng.Failf("%s: %d of %d-byte entries, ends with %v: no error, %d entries", what, len(data), entry, r.err, len(c))
		}
		return
	}
	if err != nil {
		eng.Failf("%s: %d bytes of %d-byte entries: error %v", what, len(data), entry, err)
		return
	}
	if len(c) != len(data)/entry {
		eng.Failf("%s: %d entries, want %d", what, len(c), len(data)/entry)
		return
	}
	for i, x := range c {
		w, s := data[i*entry:i*entry+weak], data[i*entry+weak:(i+1)*entry]
		if x.ChunkOffset != uint(i) || !bytes.Equal(x.WeakChecksum, w) || !bytes.Equal(x.StrongChecksum, s) {
			eng.Failf("%s: entry %d is %v, want %v/%v", what, i, x, w, s)
			return
		}
		if g := chunks.StrongChecksumGetter(c).GetStrongChecksumForBlock(i); !bytes.Equal(g, s) {
			eng.Failf("%s: strong checksum of block %d is %v, want %v", what, i, g, s)
			return
		}
	}
}

func c17(tier string, emit func(eng.Case)) {
	ends := append([]error{io.EOF}, readErrors...)
	variants := func(data []byte, weak, strong int, sizes []int, what string) {
		for _, e := range ends {
			for _, with := range []bool{false, true} {
				for zero := 0; zero < 2; zero++ {
					checkLoad(data, weak, strong, &script{data: data, sizes: sizes, err: e, with: with, zero: zero},
						fmt.Sprintf("%s reads %v end %v with data %v empty reads %d", what, sizes, e, with, zero))
				}
			}
		}
	}
	sz := [][2]int{{1, 1}, {1, 2}, {2, 1}, {2, 3}, {4, 4}}
	for _, s := range sz {
		entry := s[0] + s[1]
		max := pick(tier, 8, 11)
		for n := 0; n <= max; n++ {
			batch(emit, fmt.Sprintf("small-%d-%d-%d", s[0], s[1], n), func() {
				data := bytesOf(n, func(i int) byte { return byte(i*31 + 1) })
				what := fmt.Sprintf("weak %d strong %d, %d bytes", s[0], s[1], n)
				compositions(n, func(c []int) {
					variants(data, s[0], s[1], c, what)
					eng.Outcome(fmt.Sprint(s, c))
				})
				_ = entry
			})
		}
	}
	// comparing two checksums
	batch(emit, "match", func() {
		var all [][]byte
		all = append(all, nil)
		for _, n := range []int{1, 2, 3} {
			tuples(n, 2, func(v []int) {
				b := make([]byte, n)
				for i := range b {
					b[i] = byte(v[i] * 200)
				}
				all = append(all, b)
			})
		}
		for _, w1 := range all {
			for _, w2 := range all {
				for _, s1 := range all {
					for _, s2 := range all {
						for k := 0; k < 4; k++ {
							a := chunks.ChunkChecksum{WeakChecksum: w1, StrongChecksum: s1}
							b := chunks.ChunkChecksum{WeakChecksum: w2, StrongChecksum: s2, ChunkOffset: uint(k & 1), Size: int64(k >> 1)}
							eng.Eval(1)
							if g := a.Match(b); g != (bytes.Equal(w1, w2) && bytes.Equal(s1, s2)) {
								eng.Failf("checksums %x/%x and %x/%x: match %v", w1, s1, w2, s2, g)
								return
							}
						}
					}
				}
			}
		}
	})
	// more entries than 16 bits can number
	batch(emit, "many", func() {
		full := filler(17, 70001*20)
		for _, n := range []int{len(full), len(full) - 1, len(full) - 16, len(full) - 20, 65536 * 20, 65537 * 20} {
			variants(full[:n], 4, 16, []int{100000}, fmt.Sprintf("%d bytes of entries of 4+16 bytes", n))
		}
	})
	for _, n := range pick(tier, []int{1<<20 + 3}, []int{1<<20 + 3, 1<<24 + 3}) {
		batch(emit, fmt.Sprintf("many-%d", n), func() {
			data := filler(18, 2*n)
			checkLoad(data, 1, 1, &script{data: data, sizes: []int{1 << 20}, err: io.EOF}, fmt.Sprintf("%d entries", n))
			checkLoad(data[:2*n-1], 1, 1, &script{data: data[:2*n-1], sizes: []int{1 << 20}, err: io.EOF}, fmt.Sprintf("%d entries, the last one cut", n))
		})
	}
	// the sizes in use, every truncation
	for _, count := range []int{1, 2, 3, 19, 20, 21, 22, 40, 41, 300} {
		batch(emit, fmt.Sprintf("real-%d", count), func() {
			const weak, strong = 4, 16
			full := filler(uint32(count), count*(weak+strong))
			from := 0
			if count > 3 {
				from = len(full) - 45
			}
			for n := from; n <= len(full); n++ {
				for _, s := range [][]int{nil, {1}, {3}, {4, 16}, {19}, {20}, {21}, {512}} {
					variants(full[:n], weak, strong, s, fmt.Sprintf("%d of %d entries of 4+16 bytes", n/20, count))
				}
				eng.Outcome(fmt.Sprint(count, n))
			}
		})
	}
}

// ---- C05: merging ----

const mBS = 4

type match struct {
	b   uint
	off int64
}

func (m match) String() string { return fmt.Sprintf("%d@%d", m.b, m.off) }

func checkMerged(l comparer.BlockSpanList, reported []match, bs int64) string {
	offs := map[match]bool{}
	blocks := map[uint]bool{}
	for _, m := range reported {
		offs[m] = true
		blocks[m.b] = true
	}
	n := 0
	for i, s := range l {
		if s.EndBlock < s.StartBlock {
			return fmt.Sprintf("span %v is empty", s)
		}
		if s.EndBlock-s.StartBlock > uint(len(reported)) {
			return fmt.Sprintf("span %v is too long", s)
		}
		if i > 0 {
			p := l[i-1]
			if s.StartBlock <= p.EndBlock {
				return fmt.Sprintf("spans %v and %v are not sorted and disjoint", p, s)
			}
			if s.StartBlock == p.EndBlock+1 && s.ComparisonStartOffset == p.ComparisonStartOffset+bs*int64(p.EndBlock-p.StartBlock+1) {
				return fmt.Sprintf("spans %v and %v follow each other and stay separate", p, s)
			}
		}
		for b := s.StartBlock; b <= s.EndBlock; b++ {
			if !offs[match{b, s.ComparisonStartOffset + bs*int64(b-s.StartBlock)}] {
				return fmt.Sprintf("span %v: block %d was not reported at offset %d", s, b, s.ComparisonStartOffset+bs*int64(b-s.StartBlock))
			}
			n++
		}
	}
	if n != len(blocks) {
		return fmt.Sprintf("%d blocks are listed, %d were reported", n, len(blocks))
	}
	return ""
}

// mergeOne merges one stream.
func mergeOne(ms []match, bs int64, fail bool) comparer.BlockSpanList {
	m := &comparer.MatchMerger{}
	c := make(chan comparer.BlockMatchResult, len(ms)+1)
	for _, x := range ms {
		vs.Send(c, comparer.BlockMatchResult{BlockIdx: x.b, ComparisonOffset: x.off})
	}
	if fail {
		vs.Send(c, comparer.BlockMatchResult{Err: errBroken})
	}
	vs.Close(c)
	m.StartMergeResultStream(c, bs)
	return m.GetMergedBlocks()
}

func checkOne(ms []match, bs int64) {
	for _, fail := range []bool{false, true} {
		l := mergeOne(ms, bs, fail)
		if e := checkMerged(l, ms, bs); e != "" {
			x := fmt.Sprint(ms)
			if len(x) > 600 {
				x = x[:600] + "..."
			}
			eng.Failf("block size %d, results %s, error at the end %v: merged %v: %s", bs, x, fail, clipSpans(l), e)
		}
		eng.Eval(1)
		if len(ms) < 10 {
			eng.State([]byte(fmt.Sprint(l)))
		}
	}
}

// checkAgain merges the results as one stream after another and lists the blocks each time.
func checkAgain(ms []match, bs int64) {
	for cut := 1; cut < len(ms); cut++ {
		for fail := 0; fail < 2; fail++ {
			m := &comparer.MatchMerger{}
			for _, k := range []int{cut, len(ms)} {
				part := ms[:cut]
				if k > cut {
					part = ms[cut:]
				}
				c := make(chan comparer.BlockMatchResult, len(part)+1)
				for _, x := range part {
					vs.Send(c, comparer.BlockMatchResult{BlockIdx: x.b, ComparisonOffset: x.off})
				}
				if fail == 1 && k == cut {
					vs.Send(c, comparer.BlockMatchResult{Err: errBroken})
				}
				vs.Close(c)
				m.StartMergeResultStream(c, bs)
				for again := 0; again < 2; again++ {
					l := m.GetMergedBlocks()
					if e := checkMerged(l, ms[:k], bs); e != "" {
						eng.Failf("block size %d, streams %v and %v: merged %v after %d results (time %d): %s", bs, ms[:cut], ms[cut:], clipSpans(l), k, again+1, e)
					}
					// the caller may do with the list what it likes
					for i := range l {
						l[i] = comparer.BlockSpan{StartBlock: 77, EndBlock: 70}
					}
					if err := m.Err(); (err != nil) != (fail == 1) {
						eng.Failf("streams %v and %v, error after the first %v: Err gives %v (time %d)", ms[:cut], ms[cut:], fail == 1, err, again+1)
					}
					eng.Eval(1)
				}
			}
		}
	}
}

func clipSpans(l comparer.BlockSpanList) string {
	s := fmt.Sprint(l)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func c05(tier string, emit func(eng.Case)) {
	quick := tier == "quick"
	// all sequences over a few possible results: in place, shifted, elsewhere
	alpha := []match{}
	for b := uint(0); b < 4; b++ {
		alpha = append(alpha, match{b, int64(b) * mBS}, match{b, int64(b)*mBS + 1})
	}
	alpha = append(alpha, match{2, 0}, match{1, 2 * mBS})
	n := pick(tier, 5, 6)
	for l := 1; l <= n; l++ {
		for f := range alpha {
			batch(emit, fmt.Sprintf("seq-%d-%d", l, f), func() {
				tuples(l-1, len(alpha), func(t []int) {
					ms := []match{alpha[f]}
					for _, k := range t {
						ms = append(ms, alpha[k])
					}
					checkOne(ms, mBS)
				})
			})
		}
	}
	// results listed, then further streams into the same merger
	for l := 2; l <= n-1; l++ {
		for f := range alpha {
			batch(emit, fmt.Sprintf("again-%d-%d", l, f), func() {
				tuples(l-1, len(alpha), func(t []int) {
					ms := []match{alpha[f]}
					for _, k := range t {
						ms = append(ms, alpha[k])
					}
					checkAgain(ms, mBS)
				})
			})
		}
	}
	// all orders of up to 7 (8) blocks, at contiguous offsets with breaks
	np := pick(tier, 7, 8)
	for brk := 0; brk < 1<<(np-1); brk++ {
		if brk&(brk>>1) != 0 && quick {
			continue
		}
		batch(emit, fmt.Sprintf("orders-%d", brk), func() {
			off := make([]int64, np)
			for i := 1; i < np; i++ {
				off[i] = off[i-1] + mBS
				if brk>>(i-1)&1 == 1 {
					off[i] += 3
				}
			}
			perms(np, func(p []int) {
				ms := make([]match, np)
				for i, b := range p {
					ms[i] = match{uint(b), off[b]}
				}
				checkOne(ms, mBS)
			})
		})
	}
	// large numbers, many blocks, structured orders
	for _, base := range []uint{0, 1, 1<<31 - 3, 1 << 31, 1<<32 - 3, 1 << 40} {
		for _, obase := range []int64{0, 5, 1<<31 - 7, 1 << 32, 1 << 45} {
			batch(emit, fmt.Sprintf("large-%d-%d", base, obase), func() {
				for _, n := range []int{2, 3, 8, 65, 257} {
					for _, bs := range []int64{1, 4, 8192, 1 << 31} {
						if n > 8 && bs > 4 && base != 0 {
							continue
						}
						for kind := 0; kind < 9; kind++ {
							ms := make([]match, 0, n)
							for i := 0; i < n; i++ {
								k := i
								switch kind {
								case 1:
									k = n - 1 - i
								case 2: // even ones, then odd ones
									k = 2 * i
									if k >= n {
										k = 2*(i-(n+1)/2) + 1
									}
								case 3: // from both ends
									k = i / 2
									if i%2 == 1 {
										k = n - 1 - i/2
									}
								case 4: // from the middle
									k = n/2 + (i+1)/2
									if i%2 == 1 {
										k = n/2 - (i+1)/2
									}
									if k >= n {
										k = 0
									}
								case 5: // upper half first
									k = (i + n/2) % n
								case 6:
									k = (i*5 + 2) % n
								}
								o := obase + int64(k)*bs
								if kind == 7 && k%3 == 2 { // breaks in the offsets
									o += 1
								}
								if kind == 8 { // constant offset: equal blocks
									o = obase
								}
								ms = append(ms, match{base + uint(k), o})
							}
							checkOne(ms, bs)
							eng.Outcome(fmt.Sprint(base, obase, n, bs, kind))
						}
					}
				}
			})
		}
	}
	// several streams: all interleavings of the merging goroutines up to a number of preemptions
	sets := [][][]match{
		{{{0, 0}}, {{1, 4}}},
		{{{0, 0}, {2, 8}}, {{1, 4}}},
		{{{0, 0}, {1, 4}}, {{2, 8}, {3, 12}}},
		{{{1, 4}, {0, 0}}, {{2, 8}, {1, 4}}},
		{{{0, 0}, {1, 4}}, {{0, 9}, {1, 13}}},
		{{{0, 0}, {2, 8}}, {{1, 5}, {3, 12}}},
		{{{0, 0}}, {{1, 4}}, {{2, 8}}},
		{{{1, 4}}, {{1, 4}}, {{0, 0}, {2, 8}}},
		{{{0, 0}, {1, 4}}, {{1, 4}, {2, 8}}, {{2, 8}}},
		{{}, {{1, 4}}},
		{{}, {}, {{0, 0}, {1, 4}}},
	}
	if !quick {
		sets = append(sets,
			[][]match{{{0, 0}, {1, 4}, {2, 8}}, {{3, 12}, {4, 16}, {5, 20}}},
			[][]match{{{0, 0}, {2, 8}, {4, 16}}, {{1, 4}, {3, 12}, {5, 20}}},
			[][]match{{{0, 0}, {3, 12}}, {{1, 4}, {4, 16}}, {{2, 8}, {5, 20}}},
			[][]match{{{0, 0}, {1, 4}, {2, 9}}, {{2, 8}, {1, 5}, {0, 1}}},
		)
	}
	for i, set := range sets {
		for fail := 0; fail <= len(set); fail++ {
			for mode := 0; mode < 3; mode++ {
				// 0: preemption between all statements; 1: between synchronisation operations, all orders;
				// 2: results are produced by goroutines through unbuffered channels
				o := vs.Opts{Mask: 1 << 2, Blocked: 1}
				bound := int32(pick(tier, 2, 3))
				if mode != 0 {
					o = vs.Opts{Blocked: 1}
					bound = int32(pick(tier, 3, 4))
					if len(set) > 2 {
						bound--
					}
				}
				if mode == 0 && len(set) > 2 {
					bound = int32(pick(tier, 1, 2))
				}
				emit(eng.Case{Key: fmt.Sprintf("streams-%d-f%d-m%d", i, fail, mode), Opts: o, Bound: bound, Split: true, Body: func() {
					m := &comparer.MatchMerger{}
					var reported []match
					for k, ms := range set {
						n := len(ms) + 1
						if mode == 2 {
							n = 0
						}
						c := make(chan comparer.BlockMatchResult, n)
						produce := func() {
							for _, x := range ms {
								vs.Send(c, comparer.BlockMatchResult{BlockIdx: x.b, ComparisonOffset: x.off})
							}
							if fail == k+1 {
								vs.Send(c, comparer.BlockMatchResult{Err: errBroken})
							}
							vs.Close(c)
						}
						reported = append(reported, ms...)
						if mode == 2 {
							vs.Go2(produce)
						} else {
							produce()
						}
						m.StartMergeResultStream(c, mBS)
					}
					l := m.GetMergedBlocks()
					if e := checkMerged(l, reported, mBS); e != "" {
						eng.Failf("streams %v, stream %d ends with an error: merged %v: %s", set, fail, l, e)
					}
					vs.Outcome("%v", l)
				}})
			}
		}
	}
}

func init() {
	eng.Register(&eng.Prop{ID: "C27", Gen: c27,
		Rule: "input: helper, its parameters, the way the underlying readers deliver, and the sizes of all reads; distinct: by all of these",
		Bounds: func(tier string) string {
			return "streams of 0-9 (thorough 12) bytes under every division into reads, selected long ones up to 100000 bytes; limited sequences of up to 3 readers"
		}})
	eng.Register(&eng.Prop{ID: "C13", Gen: c13,
		Rule: "input: block size, file size, block number or range, desired size; compared with arbitrary-precision arithmetic; distinct: by input",
		Bounds: func(string) string {
			return "block sizes 1 to 2^32+7, block numbers to 2^40 around powers of two, all file sizes around each block's borders; all ranges of up to 14 (thorough 40) blocks x all desired sizes around multiples of the block size; ranges of up to 65537 blocks"
		}})
	eng.Register(&eng.Prop{ID: "C06", Gen: c06,
		Rule: "input: list of found spans and last block; recorded states: distinct lists",
		Bounds: func(tier string) string {
			return "all span lists over up to 12 (thorough 14) blocks; all alternations of 4 (thorough 5) runs of 1 to 2^40 blocks; lists of up to 5000 spans"
		}})
	eng.Register(&eng.Prop{ID: "C16", Gen: c16,
		Rule: "input: list of checksums in an order, all lookups of present and absent checksums, twice; concurrent lookups under all schedules up to a preemption bound; recorded states: distinct lists",
		Bounds: func(tier string) string {
			return "all lists of up to 4 entries over 4 weak x 3 strong checksums and of 5 (thorough 6) over 3x2; all orders of four lists of 6; up to 2000 entries in patterns; pairs that differ in one bit; pairs of concurrent lookups with 2 (3) preemptions between any two statements"
		}})
	eng.Register(&eng.Prop{ID: "C17", Gen: c17,
		Rule: "input: stream bytes and length, division into reads, empty reads, end or failure with or after the last bytes; distinct: by sizes and division",
		Bounds: func(tier string) string {
			return "streams of up to 8 (thorough 11) bytes with entries of 2-8 bytes under every division; up to 300 entries of 4+16 bytes truncated at every byte of the last entries; 70000, 2^20+3 (thorough 2^24+3) entries"
		}})
	eng.Register(&eng.Prop{ID: "C05", Gen: c05,
		Rule: "input: result streams; execution: interleaving of the merging goroutines; recorded states: distinct merged lists",
		Bounds: func(tier string) string {
			return "all sequences of up to 5 (thorough 6) results over 10 possible ones; all orders of 7 (8) blocks with every pattern of breaks; up to 257 blocks in structured orders with numbers to 2^40 and offsets to 2^45; 2-3 streams under all schedules with up to 2 (3) preemptions"
		}})
	_ = strings.Join
}
