package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/comparer"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/indexbuilder"
	"verif/mc/eng"
	"verif/mc/vs"
)

// ---- C11: verification ----

type sums [][]byte

func (s sums) GetStrongChecksumForBlock(b int) []byte {
	if b < 0 || b >= len(s) {
		return nil
	}
	return s[b]
}

type vRange struct {
	start int
	data  []byte
}

func verdict(s sums, bs int, r vRange) bool {
	for k := 0; k*bs < len(r.data); k++ {
		want := s.GetStrongChecksumForBlock(r.start + k)
		if want != nil && !bytes.Equal(want, strongOf(blockOf(r.data, bs, k))) {
			return false
		}
	}
	return true
}

func c11(tier string, emit func(eng.Case)) {
	bigVerify(tier, emit)
	for bs := 1; bs <= 4; bs++ {
		for n := 1; n <= pick(tier, 7, 9); n++ {
			file := bytesOf(n, func(i int) byte { return "abab"[i%4] + byte(i/6) })
			nb := nblocks(n, bs)
			if nb > 4 {
				continue
			}
			// all candidate transfers: every range, right, with one changed byte, shortened, extended, shifted, swapped blocks
			var cand []vRange
			for a := 0; a < nb; a++ {
				for b := a; b < nb; b++ {
					e := (b + 1) * bs
					if e > n {
						e = n
					}
					d := file[a*bs : e]
					cand = append(cand, vRange{a, d})
					for i := range d {
						x := append([]byte(nil), d...)
						x[i] ^= 1
						cand = append(cand, vRange{a, x})
					}
					cand = append(cand, vRange{a, d[:len(d)-1]}, vRange{a, append(append([]byte(nil), d...), 'x')})
					if len(d) > bs {
						x := append([]byte(nil), d...)
						copy(x, d[bs:])
						cand = append(cand, vRange{a, x})
					}
					cand = append(cand, vRange{a + 1, d})
				}
			}
			cand = append(cand, vRange{0, nil}, vRange{nb, []byte("beyond")})
			for known := 0; known < 1<<nb; known++ {
				if known != 1<<nb-1 && len(cand) > 45 && tier == "quick" && known%3 != 0 {
					continue
				}
				batch(emit, fmt.Sprintf("bs%d-n%d-known%d", bs, n, known), func() {
					s := make(sums, nb)
					for b := range s {
						if known>>b&1 == 1 {
							s[b] = strongOf(blockOf(file, bs, b))
						}
					}
					// every sequence of two and, for few candidates, three verifications with one verifier
					depth := 2
					if len(cand) <= pick(tier, 22, 45) {
						depth = 3
					}
					v := &filechecksum.HashVerifier{BlockSize: uint(bs), Hash: filechecksum.DefaultStrongHashGenerator(), BlockChecksumGetter: s}
					tuples(depth, len(cand), func(t []int) {
						v.Hash = filechecksum.DefaultStrongHashGenerator()
						for i, k := range t {
							c := cand[k]
							d := append([]byte(nil), c.data...)
							got := v.VerifyBlockRange(uint(c.start), d)
							if want := verdict(s, bs, c); got != want {
								var h []string
								for _, j := range t[:i] {
									h = append(h, fmt.Sprintf("%d:%q", cand[j].start, cand[j].data))
								}
								eng.Failf("file %q, block size %d, known %b: verification of %d:%q gives %v, want %v (after %v)", file, bs, known, c.start, c.data, got, want, h)
							}
							if !bytes.Equal(d, c.data) {
								eng.Failf("verification changed the data")
							}
							eng.Eval(1)
						}
						eng.State([]byte(fmt.Sprint(bs, n, known, t)))
					})
				})
			}
		}
	}
	// checksums that are nearly right: cut off, extended, wrong in one bit
	for nb := 1; nb <= 3; nb++ {
		for bs := 1; bs <= 3; bs++ {
			batch(emit, fmt.Sprintf("nearly-%d-%d", nb, bs), func() {
				file := filler(5, nb*bs)
				right := make(sums, nb)
				for b := range right {
					right[b] = strongOf(blockOf(file, bs, b))
				}
				for at := 0; at < nb; at++ {
					var wrong [][]byte
					r := right[at]
					for l := 1; l < len(r); l++ {
						wrong = append(wrong, r[:l], r[l:])
					}
					for _, x := range []byte{0, 1, 255} {
						wrong = append(wrong, append(append([]byte(nil), r...), x), append([]byte{x}, r...))
					}
					wrong = append(wrong, append(append([]byte(nil), r...), r...), make([]byte, len(r)))
					for i := 0; i < 8*len(r); i++ {
						x := append([]byte(nil), r...)
						x[i/8] ^= 1 << (i % 8)
						wrong = append(wrong, x)
					}
					for _, x := range wrong {
						s := append(sums(nil), right...)
						s[at] = x
						v := &filechecksum.HashVerifier{BlockSize: uint(bs), Hash: filechecksum.DefaultStrongHashGenerator(), BlockChecksumGetter: s}
						if v.VerifyBlockRange(0, file) {
							eng.Failf("%d blocks of %d bytes verify, though the checksum of block %d is %x and not %x", nb, bs, at, r, x)
						}
						s[at] = r
						if !v.VerifyBlockRange(0, file) {
							eng.Failf("%d blocks of %d bytes do not verify after others failed", nb, bs)
						}
						eng.Eval(2)
						eng.Outcome(fmt.Sprintf("%d %d %d %x", nb, bs, at, x))
					}
				}
			})
		}
	}
	// long ranges: one wrong byte in each block in turn
	for _, nb := range []int{1, 2, 63, 64, 65, 255, 256, 257, 300} {
		for _, bs := range []int{1, 2, 16, 1000} {
			batch(emit, fmt.Sprintf("long-%d-%d", nb, bs), func() {
				for _, cut := range []int{0, 1, bs / 2} {
					n := nb*bs - cut
					if cut >= bs || n <= 0 {
						continue
					}
					file := filler(7, n)
					s := make(sums, nb)
					for b := range s {
						s[b] = strongOf(blockOf(file, bs, b))
					}
					v := &filechecksum.HashVerifier{BlockSize: uint(bs), Hash: filechecksum.DefaultStrongHashGenerator(), BlockChecksumGetter: s}
					for _, a := range []int{0, 1, nb / 2, nb - 1} {
						if a >= nb {
							continue
						}
						d := append([]byte(nil), file[a*bs:]...)
						if !v.VerifyBlockRange(uint(a), d) {
							eng.Failf("%d blocks of %d bytes from block %d do not verify", nb-a, bs, a)
							return
						}
						for b := a; b < nb; b++ {
							i := (b - a) * bs
							d[i] ^= 0x80
							if v.VerifyBlockRange(uint(a), d) {
								eng.Failf("%d blocks of %d bytes from block %d verify although block %d is wrong", nb-a, bs, a, b)
								return
							}
							d[i] ^= 0x80
							eng.Eval(1)
						}
						if !v.VerifyBlockRange(uint(a), d) {
							eng.Failf("%d blocks of %d bytes from block %d do not verify after others failed", nb-a, bs, a)
							return
						}
					}
					eng.Outcome(fmt.Sprint(nb, bs, cut))
				}
			})
		}
	}
}

// bigVerify verifies blocks of sizes and with numbers beyond small integers.
func bigVerify(tier string, emit func(eng.Case)) {
	for _, bs := range []int{255, 256, 32767, 32768, 40000, 65535, 65536, 65537, 1 << 20} {
		for _, first := range []int{0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 70000, 1<<31 - 4, 1 << 31, 1 << 32} {
			batch(emit, fmt.Sprintf("big-%d-%d", bs, first), func() {
				data := filler(uint32(bs+first), 2*bs+bs/2)
				v := &filechecksum.HashVerifier{BlockSize: uint(bs), Hash: filechecksum.DefaultStrongHashGenerator()}
				for _, n := range []int{bs / 2, bs, bs + bs/2, 2 * bs, 2*bs + bs/2} {
					for known := 1; known < 1<<nblocks(n, bs); known++ {
						from := fromSums{first: first}
						for b := 0; b < nblocks(n, bs); b++ {
							var c []byte
							if known>>b&1 == 1 {
								c = strongOf(blockOf(data[:n], bs, b))
							}
							from.sums = append(from.sums, c)
						}
						v.BlockChecksumGetter = from
						if !v.VerifyBlockRange(uint(first), data[:n]) {
							eng.Failf("%d bytes in blocks of %d from block %d do not verify (known %b)", n, bs, first, known)
							return
						}
						for b := 0; b < nblocks(n, bs); b++ {
							for _, i := range []int{0, len(blockOf(data[:n], bs, b)) - 1} {
								i += b * bs
								data[i] ^= 4
								if got := v.VerifyBlockRange(uint(first), data[:n]); got != (known>>b&1 == 0) {
									eng.Failf("%d bytes in blocks of %d from block %d, wrong at %d: verification gives %v (known %b)", n, bs, first, i, got, known)
									return
								}
								data[i] ^= 4
								eng.Eval(1)
							}
						}
						eng.Outcome(fmt.Sprint(bs, first, n, known))
					}
				}
			})
		}
	}
}

// fromSums knows checksums of the blocks from first on.
type fromSums struct {
	first int
	sums  sums
}

func (f fromSums) GetStrongChecksumForBlock(b int) []byte {
	return f.sums.GetStrongChecksumForBlock(b - f.first)
}

// ---- C14, C15: generation ----

type sink struct {
	buf   []byte
	limit int   // bytes it accepts before it fails (-1: all)
	err   error // how (nil: errBroken)
	once  int   // the write that fails once (0: none)
	all   bool  // the write that fails has taken all that it was given
}

func (s *sink) Write(p []byte) (int, error) {
	if s.once--; s.once == 0 {
		n := len(p) / 2
		s.buf = append(s.buf, p[:n]...)
		return n, s.failure()
	}
	if s.limit >= 0 && len(s.buf)+len(p) > s.limit {
		n := s.limit - len(s.buf)
		if s.all {
			n, s.limit = len(p), len(s.buf)+len(p)
		}
		s.buf = append(s.buf, p[:n]...)
		return n, s.failure()
	}
	s.buf = append(s.buf, p...)
	return len(p), nil
}

func (s *sink) failure() error {
	if s.err == nil {
		return errBroken
	}
	return s.err
}

func serial(data []byte, bs int) []byte {
	var b []byte
	for _, c := range chunksOf(data, bs) {
		b = append(append(b, c.WeakChecksum...), c.StrongChecksum...)
	}
	return b
}

// generation collects everything that StartChecksumGeneration delivers, without copying it.
type generation struct {
	batches [][]chunks.ChunkChecksum
	file    []byte
	err     error
	after   int // results after the last one
	last    bool
}

func collect(c <-chan filechecksum.ChecksumResults) (g generation) {
	for {
		r, ok := vs.Recv2(c)
		if !ok {
			return
		}
		if g.last {
			g.after++
		}
		if r.Err != nil {
			g.err, g.last = r.Err, true
		} else if r.Filechecksum != nil {
			g.file, g.last = r.Filechecksum, true
		}
		if r.Checksums != nil {
			g.batches = append(g.batches, r.Checksums)
		}
		if len(g.batches) > 1<<20 {
			eng.Failf("the generation does not end")
			return
		}
	}
}

// check compares a complete generation with the checksums from scratch.
func (g *generation) check(what string, data []byte, bs int) bool {
	want := chunksOf(data, bs)
	if g.err != nil {
		eng.Failf("%s: error %v", what, g.err)
		return false
	}
	if !bytes.Equal(g.file, strongOf(data)) {
		eng.Failf("%s: file checksum %x, want %x", what, g.file, strongOf(data))
		return false
	}
	return g.checkEntries(what, want, true)
}

func (g *generation) checkEntries(what string, want []chunks.ChunkChecksum, all bool) bool {
	i := 0
	for _, b := range g.batches {
		for _, c := range b {
			if i >= len(want) {
				eng.Failf("%s: more than %d entries", what, len(want))
				return false
			}
			w := want[i]
			if c.ChunkOffset != w.ChunkOffset || !bytes.Equal(c.WeakChecksum, w.WeakChecksum) || !bytes.Equal(c.StrongChecksum, w.StrongChecksum) {
				eng.Failf("%s: entry %d is %v, want %v", what, i, c, w)
				return false
			}
			i++
		}
	}
	if all && i != len(want) {
		eng.Failf("%s: %d entries, want %d", what, i, len(want))
		return false
	}
	if g.after > 0 {
		eng.Failf("%s: %d results follow the last one", what, g.after)
		return false
	}
	return true
}

func c14(tier string, emit func(eng.Case)) {
	gen := func(bs int) *filechecksum.FileChecksumGenerator {
		return filechecksum.NewFileChecksumGenerator(uint(bs))
	}
	// every input length and division into reads
	for bs := 1; bs <= 4; bs++ {
		for n := 0; n <= pick(tier, 8, 10); n++ {
			batch(emit, fmt.Sprintf("reads-bs%d-n%d", bs, n), func() {
				data := bytesOf(n, func(i int) byte { return byte(i*i*7 + 200) })
				compositions(n, func(s []int) {
					for _, with := range []bool{false, true} {
						for zero := 0; zero < 2; zero++ {
							for per := uint(0); per < 4; per++ {
								what := fmt.Sprintf("%d bytes, block size %d, reads %v, end with data %v, empty reads %d, %d per result", n, bs, s, with, zero, per)
								g := collect(gen(bs).StartChecksumGeneration(&script{data: data, sizes: s, with: with, zero: zero, err: io.EOF}, per, nil))
								g.check(what, data, bs)
								eng.Eval(1)
							}
							out := &sink{limit: -1}
							sum, err := gen(bs).GenerateChecksums(&script{data: data, sizes: s, with: with, zero: zero, err: io.EOF}, out)
							if err != nil || !bytes.Equal(sum, strongOf(data)) || !bytes.Equal(out.buf, serial(data, bs)) {
								eng.Failf("%d bytes, block size %d, reads %v: GenerateChecksums gives %x, %v, %d bytes of %d", n, bs, s, sum, err, len(out.buf), len(serial(data, bs)))
							}
							eng.Eval(1)
						}
					}
					eng.Outcome(fmt.Sprint(bs, s))
				})
			})
		}
	}
	// batches: block counts around multiples of the batch size; nothing handed out may change later
	for _, per := range []uint{0, 1, 2, 3, 4, 5, 7, 63, 64, 65, 100, 1000} {
		for _, bs := range []int{1, 3, 16} {
			batch(emit, fmt.Sprintf("batches-%d-bs%d", per, bs), func() {
				for _, nb := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14, 15, 62, 63, 64, 65, 66, 127, 128, 129, 130, 191, 192, 193, 200, 255, 256, 257, 300} {
					for _, cut := range []int{0, 1} {
						n := nb*bs - cut
						if n < 0 || cut >= bs {
							continue
						}
						data := filler(uint32(nb), n)
						what := fmt.Sprintf("%d bytes, block size %d, %d per result", n, bs, per)
						g := collect(gen(bs).StartChecksumGeneration(newReader(data), per, nil))
						g.check(what, data, bs)
						var sizes []int64
						g = collect(gen(bs).StartChecksumGeneration(newReader(data), per, func(b []byte) (int64, error) {
							if k := len(sizes); k >= nblocks(n, bs) || !bytes.Equal(b, blockOf(data, bs, k)) {
								eng.Failf("%s: block %d given to the compression is %s", what, k, show(b))
							}
							sizes = append(sizes, int64(len(sizes)*3+1))
							return sizes[len(sizes)-1], nil
						}))
						if g.check(what+", compressed", data, bs) {
							i := 0
							for _, b := range g.batches {
								for _, c := range b {
									if c.Size != sizes[i] {
										eng.Failf("%s: compressed size of block %d is %d, want %d", what, i, c.Size, sizes[i])
									}
									i++
								}
							}
						}
						out := &sink{limit: -1}
						sum, err := gen(bs).GenerateChecksums(newReader(data), out)
						if err != nil || !bytes.Equal(sum, strongOf(data)) || !bytes.Equal(out.buf, serial(data, bs)) {
							eng.Failf("%d bytes, block size %d: GenerateChecksums gives %x, %v, %d bytes", n, bs, sum, err, len(out.buf))
						}
						f, ix, lookup, err := indexbuilder.BuildChecksumIndex(gen(bs), newReader(data))
						if err != nil || !bytes.Equal(f, strongOf(data)) || ix.BlockCount != nblocks(n, bs) {
							eng.Failf("%d bytes, block size %d: BuildChecksumIndex gives %x, %v, %v", n, bs, f, ix, err)
						} else {
							for b := 0; b < ix.BlockCount; b++ {
								if !bytes.Equal(lookup.GetStrongChecksumForBlock(b), strongOf(blockOf(data, bs, b))) {
									eng.Failf("%d bytes, block size %d: BuildChecksumIndex has a wrong checksum for block %d", n, bs, b)
								}
							}
						}
						eng.Eval(4)
						eng.Outcome(fmt.Sprint(per, bs, nb, cut))
					}
				}
			})
		}
	}
	// inputs of megabytes, in blocks that divide them and that do not
	for _, bs := range []int{5000, 65536, 1 << 20} {
		for _, n := range []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 3<<20 + 17} {
			batch(emit, fmt.Sprintf("long-bs%d-n%d", bs, n), func() {
				data := filler(uint32(n), n)
				want := serial(data, bs)
				for _, max := range []int{0, 4096, 70000} {
					rd := newReader(data)
					if max > 0 {
						rd.sizes = []int{max}
					}
					out := &sink{limit: -1}
					sum, err := gen(bs).GenerateChecksums(rd, out)
					if err != nil || !bytes.Equal(sum, strongOf(data)) || !bytes.Equal(out.buf, want) {
						eng.Failf("%d bytes, block size %d: GenerateChecksums gives %x, %v, %d bytes", n, bs, sum, err, len(out.buf))
					}
					rd = newReader(data)
					if max > 0 {
						rd.sizes = []int{max}
					}
					f, ix, lookup, err := indexbuilder.BuildChecksumIndex(gen(bs), rd)
					if err != nil || !bytes.Equal(f, strongOf(data)) || ix.BlockCount != nblocks(n, bs) {
						eng.Failf("%d bytes, block size %d: BuildChecksumIndex gives %x, %v, %v", n, bs, f, ix, err)
						return
					}
					for b := 0; b < ix.BlockCount; b++ {
						if !bytes.Equal(lookup.GetStrongChecksumForBlock(b), strongOf(blockOf(data, bs, b))) {
							eng.Failf("%d bytes, block size %d: BuildChecksumIndex has a wrong checksum for block %d", n, bs, b)
						}
					}
					eng.Eval(2)
				}
				f, ix, _, err := indexbuilder.BuildIndexFromString(gen(bs), string(data))
				if err != nil || !bytes.Equal(f, strongOf(data)) || ix.BlockCount != nblocks(n, bs) {
					eng.Failf("%d bytes, block size %d: BuildIndexFromString gives %x, %v, %v", n, bs, f, ix, err)
				}
				eng.Outcome(fmt.Sprint(bs, n))
			})
		}
	}
	// more blocks than 16 bits can number
	for _, bs := range []int{1, 3} {
		batch(emit, fmt.Sprintf("many-bs%d", bs), func() {
			data := filler(uint32(bs), 70001*bs)
			for _, per := range []uint{1, 64, 40000, 100000} {
				vs.Budget(200_000_000)
				g := collect(gen(bs).StartChecksumGeneration(newReader(data), per, nil))
				g.check(fmt.Sprintf("%d bytes, block size %d, %d per result", len(data), bs, per), data, bs)
				eng.Eval(1)
			}
			out := &sink{limit: -1}
			sum, err := gen(bs).GenerateChecksums(newReader(data), out)
			if err != nil || !bytes.Equal(sum, strongOf(data)) || !bytes.Equal(out.buf, serial(data, bs)) {
				eng.Failf("%d bytes, block size %d: GenerateChecksums gives %x, %v, %d bytes", len(data), bs, sum, err, len(out.buf))
			}
		})
	}
	// large blocks
	for _, bs := range []int{255, 256, 4096, 65536, 65537} {
		batch(emit, fmt.Sprintf("large-bs%d", bs), func() {
			for _, n := range []int{bs - 1, bs, bs + 1, 3*bs - 1, 3 * bs, 3*bs + 1} {
				for _, v := range valueFuncs {
					data := bytesOf(n, v.f)
					for _, s := range [][]int{nil, {1000}, {bs - 1, 1}, {4096}} {
						g := collect(gen(bs).StartChecksumGeneration(&script{data: data, sizes: s, err: io.EOF}, 2, nil))
						g.check(fmt.Sprintf("%d bytes (%s), block size %d, reads %v", n, v.name, bs, s), data, bs)
						eng.Eval(1)
						eng.Outcome(fmt.Sprint(bs, n, v.name, s))
					}
				}
			}
		})
	}
	// failures: of reading, at every byte
	for bs := 1; bs <= 4; bs++ {
		for n := 0; n <= 9; n++ {
			batch(emit, fmt.Sprintf("readfail-bs%d-n%d", bs, n), func() {
				data := filler(9, n)
				for _, e := range readErrors {
					for _, with := range []bool{false, true} {
						for _, s := range [][]int{nil, {1}, {2}, {bs}} {
							for zero := 0; zero < 2; zero++ {
								mk := func() *script { return &script{data: data, sizes: s, with: with, zero: zero, err: e} }
								what := fmt.Sprintf("reading fails with %v after %d bytes, block size %d, reads %v, with data %v", e, n, bs, s, with)
								for per := uint(1); per < 4; per++ {
									g := collect(gen(bs).StartChecksumGeneration(mk(), per, nil))
									if g.err == nil || g.file != nil {
										eng.Failf("%s: no error (file checksum %x)", what, g.file)
									}
									g.checkEntries(what, chunksOf(data, bs), false)
								}
								sum, err := gen(bs).GenerateChecksums(mk(), &sink{limit: -1})
								if err == nil || sum != nil {
									eng.Failf("%s: GenerateChecksums gives %x, %v", what, sum, err)
								}
								_, ix, _, err := indexbuilder.BuildChecksumIndex(gen(bs), mk())
								if err == nil {
									eng.Failf("%s: BuildChecksumIndex gives an index of %d blocks and no error", what, ix.BlockCount)
								}
								eng.Eval(5)
								eng.Outcome(fmt.Sprint(bs, n, e, with, s, zero))
							}
						}
					}
				}
			})
		}
	}
	batch(emit, "readfail-long", func() {
		for _, nb := range []int{63, 64, 65, 127, 128, 129} {
			for _, d := range []int{-1, 0, 1} {
				data := filler(3, nb*4+d)
				for _, e := range readErrors {
					g := collect(gen(4).StartChecksumGeneration(&script{data: data, err: e}, 64, nil))
					sum, err := gen(4).GenerateChecksums(&script{data: data, err: e}, &sink{limit: -1})
					if g.err == nil || err == nil || sum != nil {
						eng.Failf("reading fails with %v after %d bytes, block size 4: %v, GenerateChecksums gives %x, %v", e, len(data), g.err, sum, err)
					}
					eng.Eval(2)
				}
			}
		}
	})
	// of compression, at every block
	batch(emit, "compressfail", func() {
		for bs := 1; bs <= 3; bs++ {
			for nb := 1; nb <= 5; nb++ {
				for at := 0; at < nb; at++ {
					for per := uint(1); per < 4; per++ {
						for ei, e := range append([]error{io.EOF}, readErrors...) {
							data := filler(3, nb*bs)
							k := 0
							with := []int64{0, 1, -1}[(ei+at+int(per))%3] // the size given together with the error
							g := collect(gen(bs).StartChecksumGeneration(newReader(data), per, func(b []byte) (int64, error) {
								if k == at {
									return with, e
								}
								k++
								return 1, nil
							}))
							what := fmt.Sprintf("compression of block %d of %d fails with %v (and size %d), block size %d", at, nb, e, with, bs)
							if g.err == nil || g.file != nil {
								eng.Failf("%s: no error (file checksum %x)", what, g.file)
							}
							g.checkEntries(what, chunksOf(data, bs), false)
							eng.Eval(1)
							eng.Outcome(fmt.Sprint(bs, nb, at, per, e))
						}
					}
				}
			}
		}
	})
	// of writing, at every byte
	for nb := 1; nb <= 4; nb++ {
		batch(emit, fmt.Sprintf("writefail-%d", nb), func() {
			for bs := 1; bs <= 3; bs++ {
				data := filler(4, nb*bs)
				for l := 0; l < nb*20; l++ {
					for _, e := range writeErrors {
						for _, all := range []bool{false, true} {
							sum, err := gen(bs).GenerateChecksums(newReader(data), &sink{limit: l, err: e, all: all})
							if err == nil || sum != nil {
								eng.Failf("writing fails with %v after %d bytes (all taken: %v), %d blocks of %d bytes: GenerateChecksums gives %x, %v", e, l, all, nb, bs, sum, err)
							}
						}
					}
					if o := vs.Others(); len(o) > 0 {
						// the generator may not stay blocked: it could never be used again
						vs.Quiesce()
						if o = vs.Others(); len(o) > 0 {
							eng.Failf("writing fails after %d bytes: left behind: %v", l, o)
							return
						}
					}
					eng.Eval(1)
					eng.Outcome(fmt.Sprint(nb, bs, l))
				}
			}
		})
	}
	// of one write alone, with later ones accepted
	for nb := 1; nb <= 4; nb++ {
		batch(emit, fmt.Sprintf("writefail-once-%d", nb), func() {
			for bs := 1; bs <= 3; bs++ {
				data := filler(4, nb*bs)
				var out *sink
				for k := 1; ; k++ {
					out = &sink{limit: -1, once: k}
					sum, err := gen(bs).GenerateChecksums(newReader(data), out)
					if out.once > 0 {
						break // there are fewer writes
					}
					if err == nil || sum != nil {
						eng.Failf("write %d of the checksums of %d blocks of %d bytes fails: GenerateChecksums gives %x, %v", k, nb, bs, sum, err)
					}
					eng.Eval(1)
					eng.Outcome(fmt.Sprint(nb, bs, k))
				}
			}
		})
	}
	batch(emit, "writefail-long", func() {
		data := filler(4, 200*2)
		for l := 0; l < 200*20; l += 7 {
			sum, err := gen(2).GenerateChecksums(newReader(data), &sink{limit: l})
			if err == nil || sum != nil {
				eng.Failf("writing fails after %d bytes, 200 blocks: GenerateChecksums gives %x, %v", l, sum, err)
			}
			eng.Eval(1)
		}
	})
}

// ---- C15: reuse ----

func c15(tier string, emit func(eng.Case)) {
	const bs = 2
	in := [][]byte{nil, []byte("a"), []byte("abcd"), []byte("abcdefghi")}
	// what a generator may be used for
	type use struct {
		name string
		do   func(g *filechecksum.FileChecksumGenerator)
	}
	var uses []use
	for i, d := range in {
		uses = append(uses, use{fmt.Sprintf("generate%d", i), func(g *filechecksum.FileChecksumGenerator) {
			out := &sink{limit: -1}
			sum, err := g.GenerateChecksums(newReader(d), out)
			if err != nil || !bytes.Equal(sum, strongOf(d)) || !bytes.Equal(out.buf, serial(d, bs)) {
				eng.Failf("a used generator gives for %q: %x, %v and %x, want %x and %x", d, sum, err, out.buf, strongOf(d), serial(d, bs))
			}
		}})
	}
	nGen := len(uses)
	uses = append(uses,
		use{"stream", func(g *filechecksum.FileChecksumGenerator) {
			r := collect(g.StartChecksumGeneration(newReader(in[3]), 2, nil))
			r.check("a used generator, in parts", in[3], bs)
		}},
		use{"build", func(g *filechecksum.FileChecksumGenerator) {
			sum, ix, _, err := indexbuilder.BuildChecksumIndex(g, newReader(in[2]))
			if err != nil || !bytes.Equal(sum, strongOf(in[2])) || ix.BlockCount != 2 {
				eng.Failf("a used generator builds an index with checksum %x, %v", sum, err)
			}
		}},
		use{"readfail", func(g *filechecksum.FileChecksumGenerator) {
			if _, err := g.GenerateChecksums(&script{data: in[2][:3], err: errBroken}, &sink{limit: -1}); err == nil {
				eng.Failf("no error")
			}
		}},
		use{"readfail-at-once", func(g *filechecksum.FileChecksumGenerator) {
			if _, err := g.GenerateChecksums(&script{err: errBroken}, &sink{limit: -1}); err == nil {
				eng.Failf("no error")
			}
		}},
		use{"writefail", func(g *filechecksum.FileChecksumGenerator) {
			if _, err := g.GenerateChecksums(newReader(in[3]), &sink{limit: 5}); err == nil {
				eng.Failf("no error")
			}
		}},
		use{"compressfail", func(g *filechecksum.FileChecksumGenerator) {
			k := 0
			collect(g.StartChecksumGeneration(newReader(in[3]), 1, func([]byte) (int64, error) {
				if k++; k == 3 {
					return 0, errBroken
				}
				return 1, nil
			}))
		}},
		use{"scan", func(g *filechecksum.FileChecksumGenerator) {
			c := (&comparer.Comparer{}).StartFindMatchingBlocks(newReader([]byte("zzabcx")), 0, g, index.MakeChecksumIndex(chunksOf(in[2], bs)))
			for {
				if _, ok := vs.Recv2(c); !ok {
					return
				}
			}
		}},
		use{"dirty", func(g *filechecksum.FileChecksumGenerator) {
			g.WeakRollingHash.AddBytes([]byte("dirty"))
			g.StrongHash.Write([]byte("dirty"))
			g.FileChecksumHash.Write([]byte("dirty"))
		}},
		use{"reset", func(g *filechecksum.FileChecksumGenerator) { g.Reset() }},
	)
	emitCase := func(seq []int, bound int32, mask uint32) {
		key := ""
		for _, k := range seq {
			key += "-" + uses[k].name
		}
		emit(eng.Case{Key: fmt.Sprintf("k%d-p%d%s", mask, bound, key), Bound: bound, Opts: vs.Opts{Mask: mask, Blocked: 1}, Body: func() {
			g := filechecksum.NewFileChecksumGenerator(bs)
			for _, k := range seq {
				uses[k].do(g)
			}
			vs.Quiesce()
			if o := vs.Others(); len(o) > 0 {
				eng.Failf("left behind: %v", o)
			}
			vs.Outcome("%v", seq)
		}})
	}
	for a := range uses {
		for b := 0; b < nGen+2; b++ {
			// preemption between any two statements of the generator
			emitCase([]int{a, b}, int32(pick(tier, 2, 3)), 1<<3)
			emitCase([]int{a, b}, int32(pick(tier, 3, 5)), 0)
			for c := 0; c < nGen+2; c++ {
				emitCase([]int{a, b, c}, int32(pick(tier, 1, 2)), 1<<3)
			}
		}
	}
}

func init() {
	eng.Register(&eng.Prop{ID: "C11", Gen: c11,
		Rule: "input: file, block size, known checksums and a sequence of verifications with one verifier; recorded states: distinct sequences",
		Bounds: func(tier string) string {
			return "files of up to 7 (thorough 9) bytes in up to 4 blocks of 1-4 bytes; every range, right or with every single byte changed, shortened, extended or shifted; all sequences of 2 (for few candidates 3); ranges of up to 300 blocks with each block wrong in turn; blocks of up to 2^20 bytes with numbers up to 2^32; expected checksums cut, extended and with single bits changed"
		},
		Assume: []string{"the strong hash (MD5) has no collisions among the inputs used"}})
	eng.Register(&eng.Prop{ID: "C14", Gen: c14,
		Rule: "input: bytes, block size, division into reads, batch size, place and kind of the failure; results are kept uncopied and compared at the end; distinct: by input",
		Bounds: func(tier string) string {
			return "inputs of 0-8 (thorough 10) bytes in blocks of 1-4 bytes under every division into reads; up to 300 blocks with batches of 0-1000, 70001 blocks; blocks of up to 65537 bytes; failing reads and writes at every byte (before or after the bytes are taken), each write failing alone, failing compression at every block, with and without a size; inputs of megabytes"
		}})
	eng.Register(&eng.Prop{ID: "C15", Gen: c15,
		Rule: "case: sequence of uses of one generator; execution: schedule of caller and generator; distinct: by sequence",
		Bounds: func(tier string) string {
			return "all sequences of two uses with 2 (thorough 3) preemptions between any two statements, of three with 1 (2)"
		}})
}
