package main

import (
	"fmt"
	"strings"

	"github.com/Redundancy/go-sync/circularbuffer"
	"github.com/Redundancy/go-sync/rollsum"
	"verif/mc/eng"
	"verif/mc/vs"
)

// ---- C19: window buffer ----

// c2Model is the specification: the list of the bytes in the window.
type c2Run struct {
	c     *circularbuffer.C2
	bs    int
	w     []byte
	label byte
	ops   []string
	bad   bool
}

func (r *c2Run) fail(format string, a ...any) {
	if !r.bad {
		eng.Failf("block size %d, after %s: %s", r.bs, strings.Join(r.ops, " "), fmt.Sprintf(format, a...))
	}
	r.bad = true
}

// op k: 0..bs writes k bytes, bs+1..2bs+2 truncates by k-bs-1, 2bs+3 resets.
func (r *c2Run) op(k int) {
	switch {
	case k <= r.bs:
		r.ops = append(r.ops, fmt.Sprintf("write%d", k))
		p := make([]byte, k)
		for i := range p {
			r.label++
			p[i] = r.label
		}
		q := append([]byte(nil), p...)
		r.c.Write(p)
		if !sameBytes(p, q) {
			r.fail("the write changed its argument")
		}
		for i := range p { // the caller may use its buffer again
			p[i] = 0xee
		}
		all := append(append([]byte(nil), r.w...), q...)
		cut := len(all) - r.bs
		if cut < 0 {
			cut = 0
		}
		if e := r.c.Evicted(); !sameBytes(e, all[:cut]) {
			r.fail("evicted %v, want %v", e, all[:cut])
		}
		r.w = all[cut:]
	case k <= 2*r.bs+2:
		n := k - r.bs - 1
		r.ops = append(r.ops, fmt.Sprintf("truncate%d", n))
		got := r.c.Truncate(n)
		if n > len(r.w) {
			n = len(r.w)
		}
		if !sameBytes(got, r.w[:n]) {
			r.fail("truncated %v, want %v", got, r.w[:n])
		}
		r.w = r.w[n:]
	default:
		r.ops = append(r.ops, "reset")
		r.c.Reset()
		r.w = nil
	}
	if g := r.c.GetBlock(); !sameBytes(g, r.w) {
		r.fail("holds %v, want %v", g, r.w)
	}
	if r.c.Len() != len(r.w) {
		r.fail("length %d, want %d", r.c.Len(), len(r.w))
	}
	if r.c.Empty() != (len(r.w) == 0) {
		r.fail("empty: %v with %d bytes", r.c.Empty(), len(r.w))
	}
}

func c19(tier string, emit func(eng.Case)) {
	for bs := 1; bs <= pick(tier, 5, 6); bs++ {
		n := 2*bs + 4
		depth := 1
		for p := n; p*n <= pick(tier, 3_000_000, 60_000_000); p *= n {
			depth++
		}
		// one case per pair of first operations
		for a := 0; a < n; a++ {
			for b := 0; b < n; b++ {
				batch(emit, fmt.Sprintf("seq-bs%d-d%d-%d-%d", bs, depth, a, b), func() {
					tuples(depth-2, n, func(t []int) {
						r := &c2Run{c: circularbuffer.MakeC2Buffer(bs), bs: bs}
						r.op(a)
						r.op(b)
						for _, k := range t {
							r.op(k)
							if r.bad {
								break
							}
						}
						eng.Eval(1)
						eng.State([]byte(fmt.Sprint(bs, len(r.w), int(r.label)%(2*bs))))
					})
				})
			}
		}
		// repeated patterns, over many wrap-arounds of the buffer
		for l := 1; l <= pick(tier, 3, 4); l++ {
			if l == 4 && bs > 4 {
				continue
			}
			batch(emit, fmt.Sprintf("cycle-bs%d-l%d", bs, l), func() {
				tuples(l, n, func(t []int) {
					r := &c2Run{c: circularbuffer.MakeC2Buffer(bs), bs: bs}
					for i := 0; i < 50/l && !r.bad; i++ {
						for _, k := range t {
							r.op(k)
						}
					}
					eng.Eval(1)
					eng.Outcome(fmt.Sprint(bs, t, r.w))
				})
			})
		}
	}
	// counts of bytes that do not fit in 16 or 32 bits: blocks first, then every small operation around them
	for _, big := range []struct{ bs, n int }{{1 << 10, 1 << 16}, {1 << 15, 1 << 16}, {1 << 16, 1 << 17}, {1 << 20, 1 << 24}, {1, 1 << 17}, {1 << 22, 1 << 31}, {1 << 22, pick(tier, 1<<23, 1<<32)}} {
		for d := -1; d <= 1; d++ {
			batch(emit, fmt.Sprintf("total-%d-%d", big.bs, big.n+d), func() {
				r := &c2Run{c: circularbuffer.MakeC2Buffer(big.bs), bs: big.bs}
				n := big.n + d
				p := make([]byte, big.bs)
				for i := range p {
					p[i] = byte(i * 7)
				}
				for n > 0 {
					k := big.bs
					if k > n {
						k = n
					}
					// not checked after each block, for the time that it takes
					r.c.Write(p[:k])
					r.w = append(append([]byte(nil), r.w...), p[:k]...)
					r.w = r.w[max(0, len(r.w)-big.bs):]
					n -= k
				}
				for i := 0; i < 4 && !r.bad; i++ {
					for _, k := range []int{0, 1, big.bs + 1 + 1, 1, 1} {
						r.op(min(k, 2*big.bs+2))
					}
				}
				r.op(big.bs)
				r.op(1)
				eng.Eval(1)
				eng.Outcome(fmt.Sprint(big, d))
			})
		}
	}
	// large blocks: patterns of few sizes
	for _, bs := range []int{8, 16, 64, 257} {
		sizes := []int{0, 1, 2, bs/2 - 1, bs / 2, bs - 1, bs, bs + 1 + 1, bs + 1 + bs/2, bs + 1 + bs, bs + 1 + bs + 1, 2*bs + 3}
		batch(emit, fmt.Sprintf("large-bs%d", bs), func() {
			tuples(3, len(sizes), func(t []int) {
				r := &c2Run{c: circularbuffer.MakeC2Buffer(bs), bs: bs}
				for i := 0; i < 9 && !r.bad; i++ {
					r.op(sizes[t[i%3]])
				}
				for i := 0; i < 3 && !r.bad; i++ {
					r.op(1)
				}
				eng.Eval(1)
				eng.Outcome(fmt.Sprint(bs, t))
			})
		})
	}
}

// ---- C18: rolling checksum ----

type rollRun struct {
	ops []string
	bad bool
}

func (r *rollRun) fail(format string, a ...any) {
	if !r.bad {
		o := r.ops
		if len(o) > 30 {
			o = append([]string{"..."}, o[len(o)-30:]...)
		}
		eng.Failf("after %s: %s", strings.Join(o, " "), fmt.Sprintf(format, a...))
	}
	r.bad = true
}

// hashRun drives Rollsum32 (the hash.Hash).
type hashRun struct {
	rollRun
	h  *rollsum.Rollsum32
	bs int
	w  []byte
	// values of the bytes to write, by position
	val func(i int) byte
	n   int
}

func (r *hashRun) write(k int) {
	r.ops = append(r.ops, fmt.Sprintf("write%d", k))
	p := make([]byte, k)
	for i := range p {
		p[i] = r.val(r.n)
		r.n++
	}
	q := append([]byte(nil), p...)
	n, err := r.h.Write(p)
	if n != k || err != nil {
		r.fail("write of %d bytes returns %d, %v", k, n, err)
	}
	if !sameBytes(p, q) {
		r.fail("the write changed its argument")
	}
	for i := range p {
		p[i] = 0xee
	}
	r.w = append(r.w, q...)
	if len(r.w) > r.bs {
		r.w = r.w[len(r.w)-r.bs:]
	}
	r.check()
}

func (r *hashRun) reset() {
	r.ops = append(r.ops, "reset")
	r.h.Reset()
	r.w = nil
	r.check()
}

func (r *hashRun) check() {
	want := weakOf(r.w)
	got := make([]byte, 4)
	r.h.GetSum(got)
	if !sameBytes(got, want) {
		r.fail("block size %d: sum of %s is %v, want %v", r.bs, show(r.w), got, want)
	}
	if b := r.h.GetLastBlock(); !sameBytes(b, r.w) {
		r.fail("block size %d: window is %s, want %s", r.bs, show(b), show(r.w))
	}
	// Sum appends to what it gets, for every spare capacity, and changes nothing
	for l := 0; l <= 3; l++ {
		for c := l; c <= l+6; c++ {
			back := make([]byte, c+4)
			for i := range back {
				back[i] = byte(0xa0 + i)
			}
			b := back[:l:c]
			if l == 0 && c == 3 {
				b = nil
			}
			s := r.h.Sum(b)
			if len(s) != l+4 || !sameBytes(s[l:], want) {
				r.fail("Sum with length %d, capacity %d gives %v, want %v at the end", l, c, s, want)
			}
			for i := 0; i < l; i++ {
				if s[i] != byte(0xa0+i) || back[i] != byte(0xa0+i) {
					r.fail("Sum changed what it was given")
				}
			}
			for i := l + 4; i < len(back); i++ {
				if back[i] != byte(0xa0+i) {
					r.fail("Sum changed bytes behind its result")
				}
			}
		}
	}
	r.h.GetSum(got)
	if !sameBytes(got, want) {
		r.fail("reading the sum changed it")
	}
	if r.h.Size() != 4 {
		r.fail("size %d", r.h.Size())
	}
}

// baseRun drives Rollsum32Base.
type baseRun struct {
	rollRun
	h *rollsum.Rollsum32Base
	w []byte
}

func (r *baseRun) check() {
	got := make([]byte, 6)
	got[4], got[5] = 0x77, 0x78
	r.h.GetSum(got)
	if want := weakOf(r.w); !sameBytes(got[:4], want) || got[4] != 0x77 || got[5] != 0x78 {
		r.fail("sum of %s is %v, want %v", show(r.w), got, want)
	}
}

func (r *baseRun) addByte(b byte) {
	r.ops = append(r.ops, fmt.Sprintf("add(%d)", b))
	r.h.AddByte(b)
	r.w = append(r.w, b)
	r.check()
}

func (r *baseRun) addBytes(b []byte) {
	r.ops = append(r.ops, fmt.Sprintf("addbytes(%s)", show(b)))
	r.h.AddBytes(b)
	r.w = append(r.w, b...)
	r.check()
}

func (r *baseRun) removeByte() {
	if len(r.w) == 0 {
		return
	}
	r.ops = append(r.ops, "remove")
	r.h.RemoveByte(r.w[0], len(r.w))
	r.w = r.w[1:]
	r.check()
}

func (r *baseRun) removeBytes(k int) {
	if k > len(r.w) {
		k = len(r.w)
	}
	r.ops = append(r.ops, fmt.Sprintf("removebytes%d", k))
	r.h.RemoveBytes(append([]byte(nil), r.w[:k]...), len(r.w))
	r.w = r.w[k:]
	r.check()
}

func (r *baseRun) move(add []byte, k int) {
	if k > len(r.w) {
		k = len(r.w)
	}
	if k > len(add) {
		k = len(add)
	}
	r.ops = append(r.ops, fmt.Sprintf("move(+%s,-%d)", show(add), k))
	r.h.AddAndRemoveBytes(append([]byte(nil), add...), append([]byte(nil), r.w[:k]...), len(r.w))
	r.w = append(append([]byte(nil), r.w[k:]...), add...)
	r.check()
}

func (r *baseRun) setBlock(b []byte) {
	r.ops = append(r.ops, fmt.Sprintf("set(%s)", show(b)))
	r.h.SetBlock(b)
	r.w = append([]byte(nil), b...)
	r.check()
}

func (r *baseRun) reset() {
	r.ops = append(r.ops, "reset")
	r.h.Reset()
	r.w = nil
	r.check()
}

func bytesOf(n int, f func(int) byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = f(i)
	}
	return b
}

var valueFuncs = []struct {
	name string
	f    func(int) byte
}{
	{"count", func(i int) byte { return byte(i*37 + 11) }},
	{"max", func(int) byte { return 255 }},
	{"mix", func(i int) byte { return []byte{255, 0, 128, 1, 254}[i%5] }},
	{"high", func(i int) byte { return byte(128 + i*101%128) }},
}

func c18(tier string, emit func(eng.Case)) {
	quick := tier == "quick"
	// sequences of writes and resets
	for bs := 1; bs <= 5; bs++ {
		n := 2*bs + 4 // writes of 0..2bs+2 bytes, reset
		depth := 1
		for p := n; p*n <= pick(tier, 20_000, 1_000_000); p *= n {
			depth++
		}
		for _, v := range valueFuncs[:pick(tier, 3, 4)] {
			for a := 0; a < n; a++ {
				batch(emit, fmt.Sprintf("hash-bs%d-d%d-%s-%d", bs, depth, v.name, a), func() {
					tuples(depth-1, n, func(t []int) {
						r := &hashRun{h: rollsum.NewRollsum32(uint(bs)), bs: bs, val: v.f}
						for i := -1; i < len(t) && !r.bad; i++ {
							k := a
							if i >= 0 {
								k = t[i]
							}
							if k == n-1 {
								r.reset()
							} else {
								r.write(k)
							}
						}
						eng.Eval(1)
						eng.Outcome(fmt.Sprint(bs, v.name, a, t))
					})
				})
			}
		}
	}
	// large windows, beyond the overflow of the sums
	for _, bs := range []int{255, 256, 257, 258, 513, 4096, 65535, 65536, 65537} {
		for _, v := range valueFuncs {
			batch(emit, fmt.Sprintf("hash-large-bs%d-%s", bs, v.name), func() {
				sizes := []int{1, bs - 1, bs, bs + 1, 2 * bs, bs / 2, 7, 0, 3}
				steps := 2
				if bs > 10000 {
					steps = 1
				}
				for a := range sizes {
					for b := range sizes {
						r := &hashRun{h: rollsum.NewRollsum32(uint(bs)), bs: bs, val: v.f}
						for i := 0; i < steps && !r.bad; i++ {
							r.write(sizes[a])
							r.write(sizes[b])
							r.write(1)
						}
						eng.Eval(1)
						eng.Outcome(fmt.Sprint(bs, v.name, a, b))
					}
				}
			})
		}
	}
	// operations of the base
	alpha := []byte{0, 1, 128, 255}
	type op func(r *baseRun)
	var ops []op
	for _, c := range alpha {
		ops = append(ops, func(r *baseRun) { r.addByte(c) })
	}
	ops = append(ops, (*baseRun).removeByte, (*baseRun).reset,
		func(r *baseRun) { r.addBytes(nil) }, func(r *baseRun) { r.addBytes([]byte{255, 2, 9}) },
		func(r *baseRun) { r.removeBytes(0) }, func(r *baseRun) { r.removeBytes(2) }, func(r *baseRun) { r.removeBytes(3) },
		func(r *baseRun) { r.setBlock(nil) }, func(r *baseRun) { r.setBlock([]byte{200, 100, 50, 255}) },
		func(r *baseRun) { r.move([]byte{255}, 1) }, func(r *baseRun) { r.move([]byte{3, 255}, 1) },
		func(r *baseRun) { r.move([]byte{254, 255, 253}, 3) }, func(r *baseRun) { r.move([]byte{7, 8, 9, 10}, 0) },
		func(r *baseRun) { r.move([]byte{7, 251, 9, 10}, 2) },
	)
	depth := pick(tier, 4, 5)
	for a := range ops {
		for b := range ops {
			batch(emit, fmt.Sprintf("base-d%d-%d-%d", depth, a, b), func() {
				tuples(depth-2, len(ops), func(t []int) {
					r := &baseRun{h: rollsum.NewRollsum32Base(4)}
					r.reset()
					r.ops = nil
					ops[a](r)
					ops[b](r)
					for _, k := range t {
						ops[k](r)
					}
					eng.Eval(1)
					eng.Outcome(fmt.Sprint(a, b, t))
				})
			})
		}
	}
	// large windows of the base: load, then roll in every style
	lens := []int{1, 255, 256, 257, 258, 300, 65535, 65536, 65537, 70000}
	if !quick {
		lens = append(lens, 131072, 131073, 1<<20, 1<<20+1)
	}
	for _, l := range lens {
		for _, v := range valueFuncs {
			batch(emit, fmt.Sprintf("base-large-%d-%s", l, v.name), func() {
				blk := bytesOf(l, v.f)
				r := &baseRun{h: rollsum.NewRollsum32Base(uint(l))}
				steps := []func(){
					func() { r.setBlock(blk) },
					func() { r.move([]byte{255}, 1) },
					func() { r.move(bytesOf(l, valueFuncs[2].f), l) },
					func() { r.move(bytesOf(l/2, valueFuncs[1].f), l/2) },
					func() { r.move(bytesOf(l/2+1, valueFuncs[0].f), l/3) },
					func() { r.removeBytes(1) },
					func() { r.removeBytes(l / 2) },
					func() { r.removeByte() },
					func() { r.addByte(255) },
					func() { r.addBytes(blk) },
					func() { r.reset() },
				}
				for i := range steps {
					for j := range steps {
						r.ops = nil
						steps[i]()
						steps[j]()
						if len(r.w) > 3*l {
							r.reset()
						}
						eng.Eval(2)
						eng.Outcome(fmt.Sprint(l, v.name, i, j))
						if r.bad {
							return
						}
					}
				}
				r.removeBytes(len(r.w))
			})
		}
	}
	_ = vs.Opts{}
}

func init() {
	eng.Register(&eng.Prop{ID: "C19", Gen: c19,
		Rule: "input: block size and sequence of writes (0..block bytes), truncations (0..block+1) and resets; all sequences to a depth, all cyclic patterns; distinct: by pattern and final window",
		Bounds: func(tier string) string {
			return pick(tier, "block sizes 1-5, all operation sequences (4-9 deep, up to 3 million per block size), cycles of up to 3 operations repeated to 50, blocks of 8-257 bytes with selected sizes; totals beyond 2^16 and 2^32 bytes",
				"block sizes 1-6, all operation sequences up to 60 million per block size, cycles of up to 4 operations; totals beyond 2^16 and 2^32 bytes")
		},
		Assume: []string{"contents are labels that are unique within any window, so a misplaced byte cannot go unnoticed"}})
	eng.Register(&eng.Prop{ID: "C18", Gen: c18,
		Rule: "input: block size, byte values and sequence of operations; after every operation the sum is compared with one computed from scratch; distinct: by operation sequence",
		Bounds: func(tier string) string {
			return "hash: block sizes 1-5, all sequences of writes (0..2*block+2 bytes) and resets to a depth; base: all sequences of 20 operations, 4 (quick) or 5 deep; windows of 255..70000 (thorough: 1 MB) bytes of large values"
		}})
}
