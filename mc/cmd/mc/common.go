package main

import (
	"bytes"
	"crypto/md5"
	"encoding/binary"
	"errors"
	"fmt"
	"io"

	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/index"
	"verif/mc/eng"
	"verif/mc/vs"
)

// seqOpts are the options of cases that enumerate inputs under one schedule.
var seqOpts = vs.Opts{MaxSteps: 400_000_000, Blocked: 1}

// batch emits a case that evaluates several inputs one after another.
func batch(emit func(eng.Case), key string, body func()) {
	emit(eng.Case{Key: key, Opts: seqOpts, Body: body})
}

// words calls f with every string over the alphabet with min to max letters. The slice is reused.
func words(alphabet string, min, max int, f func([]byte)) {
	for n := min; n <= max; n++ {
		w := make([]byte, n)
		var rec func(i int)
		rec = func(i int) {
			if i == n {
				f(w)
				return
			}
			for k := 0; k < len(alphabet); k++ {
				w[i] = alphabet[k]
				rec(i + 1)
			}
		}
		rec(0)
	}
}

// tuples calls f with every vector of n numbers below m. The slice is reused.
func tuples(n, m int, f func([]int)) {
	v := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(v)
			return
		}
		for k := 0; k < m; k++ {
			v[i] = k
			rec(i + 1)
		}
	}
	rec(0)
}

// compositions calls f with every list of positive numbers that add up to n.
func compositions(n int, f func([]int)) {
	var rec func(left int, c []int)
	rec = func(left int, c []int) {
		if left == 0 {
			f(c)
			return
		}
		for k := 1; k <= left; k++ {
			rec(left-k, append(c[:len(c):len(c)], k))
		}
	}
	rec(n, nil)
}

// weakOf is the weak checksum from scratch.
func weakOf(b []byte) []byte {
	var s1, s2 uint64
	for i, c := range b {
		s1 += uint64(c)
		s2 += uint64(c) * uint64(len(b)-i)
	}
	r := make([]byte, 4)
	binary.LittleEndian.PutUint32(r, uint32(s1&0xffff)|uint32(s2&0xffff)<<16)
	return r
}

func strongOf(b []byte) []byte {
	h := md5.Sum(b)
	return h[:]
}

func nblocks(n, bs int) int { return (n + bs - 1) / bs }

func blockOf(f []byte, bs, i int) []byte {
	o := i * bs
	e := o + bs
	if e > len(f) {
		e = len(f)
	}
	return f[o:e]
}

// chunksOf are the checksums of a file, from scratch.
func chunksOf(f []byte, bs int) []chunks.ChunkChecksum {
	c := make([]chunks.ChunkChecksum, nblocks(len(f), bs))
	for i := range c {
		b := blockOf(f, bs, i)
		c[i] = chunks.ChunkChecksum{ChunkOffset: uint(i), Size: int64(bs), WeakChecksum: weakOf(b), StrongChecksum: strongOf(b)}
	}
	return c
}

func indexOf(f []byte, bs int) *index.ChecksumIndex { return index.MakeChecksumIndex(chunksOf(f, bs)) }

// script is a reader that delivers data in reads of given sizes (the last size is repeated), with empty
// reads before each, and ends with an error, either together with the last bytes or after them. The
// error is repeated for ever.
type script struct {
	data  []byte
	sizes []int
	zero  int
	err   error
	with  bool // the error comes together with the last bytes
	pos   int
	k     int
	z     int
	reads int
}

func (s *script) Read(p []byte) (int, error) {
	vs.Y(31)
	s.reads++
	if len(p) == 0 {
		return 0, nil
	}
	if s.z < s.zero {
		s.z++
		return 0, nil
	}
	s.z = 0
	left := len(s.data) - s.pos
	if left == 0 {
		return 0, s.err
	}
	n := left
	if len(s.sizes) > 0 {
		n = s.sizes[len(s.sizes)-1]
		if s.k < len(s.sizes) {
			n = s.sizes[s.k]
		}
	}
	if n > left {
		n = left
	}
	if n > len(p) {
		n = len(p)
		// the rest of this piece comes with the next read
		if s.k < len(s.sizes) {
			s.sizes = append([]int(nil), s.sizes...)
			s.sizes[s.k] -= n
			s.k--
		}
	}
	s.k++
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if s.with && s.pos == len(s.data) {
		return n, s.err
	}
	return n, nil
}

func newReader(data []byte) *script { return &script{data: data, err: io.EOF} }

var errBroken = errors.New("broken-reader-1234")

// readErrors are the failures a reader may have.
var readErrors = []error{errBroken, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrShortBuffer}

// writeErrors are the failures a writer may have.
var writeErrors = []error{errBroken, io.ErrShortWrite, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe}

// filler is a byte sequence without repetition of windows of a few bytes (a fixed pseudo-random generator).
func filler(seed uint32, n int) []byte {
	b := make([]byte, n)
	x := seed*2654435761 + 12345
	for i := range b {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		b[i] = byte(x >> 11)
	}
	return b
}

func show(b []byte) string {
	if len(b) > 64 {
		return fmt.Sprintf("%q...(%d bytes)", b[:48], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func diffAt(a, b []byte) int {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) == len(b) {
		return -1
	}
	return n
}

func sameBytes(a, b []byte) bool { return bytes.Equal(a, b) }

func pick[T any](tier string, quick, thorough T) T {
	if tier == "quick" {
		return quick
	}
	return thorough
}
