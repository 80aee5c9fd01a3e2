package main

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"os"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/patcher"
	"verif/mc/eng"
	"verif/mc/vs"
)

// hugeFile is a file of whole blocks, given by the block that each one repeats, and a short end.
type hugeFile struct {
	block [][]byte // the different blocks, all of one size
	of    []byte   // which of them each block is
	tail  []byte
	pos   int64
}

func (h *hugeFile) size() int64 {
	return int64(len(h.of))*int64(len(h.block[0])) + int64(len(h.tail))
}

func (h *hugeFile) ReadAt(b []byte, off int64) (n int, err error) {
	bs := int64(len(h.block[0]))
	for n < len(b) {
		if k := off / bs; k < int64(len(h.of)) {
			c := copy(b[n:], h.block[h.of[k]][off-k*bs:])
			n += c
			off += int64(c)
			continue
		}
		o := off - bs*int64(len(h.of))
		if o >= int64(len(h.tail)) {
			return n, io.EOF
		}
		c := copy(b[n:], h.tail[o:])
		n += c
		off += int64(c)
	}
	return n, nil
}

func (h *hugeFile) Read(b []byte) (int, error) {
	n, err := h.ReadAt(b, h.pos)
	h.pos += int64(n)
	if n > 0 {
		err = nil
	}
	eng.Alive()
	return n, err
}

func (h *hugeFile) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		h.pos = off
	case io.SeekCurrent:
		h.pos += off
	default:
		h.pos = h.size() + off
	}
	return h.pos, nil
}

// hugeScans scans streams of more bytes than 32 bits can count.
func hugeScans(tier string, emit func(eng.Case)) {
	sizes := []int64{1 << 32}
	if tier != "quick" {
		sizes = append(sizes, 1<<31, 1<<33)
	}
	for _, size := range sizes {
		const bs = 1 << 25
		batch(emit, fmt.Sprintf("huge-%d", size), func() {
			ref := bytes.Join([][]byte{filler(1, bs), filler(2, bs), filler(3, bs/2)}, nil)
			h := &hugeFile{block: [][]byte{ref[:bs], ref[bs : 2*bs]}, tail: ref[2*bs:]}
			s := scanSpec{map[match]bool{}, map[match]bool{}}
			for off := int64(0); off < size+2*bs; off += bs {
				k := uint(off / bs % 3 & 1)
				h.of = append(h.of, byte(k))
				s.required[match{k, off}] = true
			}
			s.required[match{2, h.size() - bs/2}] = true
			var r scanResult
			ix := indexOf(ref, bs)
			vs.Unscheduled(func() { r = runScan(h, bs, 0, ix) })
			if e := s.compare(r); e != "" {
				eng.Failf("a stream of %d bytes in blocks of %d: %s", h.size(), bs, e)
			}
			eng.Eval(1)
		})
	}
}

// hugeBlocks is a file of numbered blocks that differ in their first bytes.
type hugeBlocks struct {
	lead []byte
	body []byte   // of every block
	ids  []uint32 // which block is where
	tail int      // bytes of the block behind the last one
	pos  int64
}

func (h *hugeBlocks) size() int64 {
	return int64(len(h.lead)) + int64(len(h.ids)-1)*int64(len(h.body)) + int64(h.tail)
}

func (h *hugeBlocks) ReadAt(b []byte, off int64) (n int, err error) {
	eng.Alive()
	if l := h.size() - off; int64(len(b)) > l {
		if l < 0 {
			l = 0
		}
		b, err = b[:l], io.EOF
	}
	if off < int64(len(h.lead)) {
		n = copy(b, h.lead[off:])
	}
	bs := int64(len(h.body))
	for n < len(b) {
		at := off + int64(n) - int64(len(h.lead))
		k, o := at/bs, at%bs
		var head [8]byte
		for i := range head {
			head[i] = byte(h.ids[k]>>(3*uint(i))) | 128
		}
		if o < 8 {
			n += copy(b[n:], head[o:])
		} else {
			n += copy(b[n:], h.body[o:])
		}
	}
	return n, err
}

func (h *hugeBlocks) Read(b []byte) (int, error) {
	n, err := h.ReadAt(b, h.pos)
	h.pos += int64(n)
	if n > 0 {
		err = nil
	}
	return n, err
}

func (h *hugeBlocks) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		h.pos = off
	case io.SeekCurrent:
		h.pos += off
	default:
		h.pos = h.size() + off
	}
	return h.pos, nil
}

// chunks are the checksums of all blocks, which have to be whole in memory one at a time.
func (h *hugeBlocks) chunks() []chunks.ChunkChecksum {
	list := make([]chunks.ChunkChecksum, len(h.ids))
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			b := make([]byte, len(h.body))
			for i := w; i < len(list); i += 8 {
				n, _ := h.ReadAt(b, int64(i)*int64(len(b)))
				list[i] = chunks.ChunkChecksum{ChunkOffset: uint(i), WeakChecksum: weakOf(b[:n]), StrongChecksum: strongOf(b[:n])}
			}
		}()
	}
	wg.Wait()
	return list
}

// write makes a sparse file, given that the blocks are otherwise zero.
func (h *hugeBlocks) write(name string) {
	defer setLimit(uint64(h.size()))()
	f, err := os.Create(name)
	must(err)
	defer f.Close()
	must(f.Truncate(h.size()))
	b := make([]byte, len(h.lead)+8)
	n, _ := h.ReadAt(b, 0)
	_, err = f.WriteAt(b[:n], 0)
	must(err)
	for k := range h.ids {
		at := int64(len(h.lead)) + int64(k)*int64(len(h.body))
		n, _ := h.ReadAt(b[:8], at)
		_, err = f.WriteAt(b[:n], at)
		must(err)
	}
}

// hugeCommands builds an index of a file of more bytes than 32 bits can count, patches with it and compares.
func hugeCommands(emit func(eng.Case)) {
	batch(emit, "huge", func() {
		inScratch(func(dir string) {
			const bs = 3000017
			ref := &hugeBlocks{body: make([]byte, bs), tail: 12345}
			loc := &hugeBlocks{body: ref.body, tail: 777, lead: []byte("abc")}
			for i := uint32(1); i <= 1450; i++ {
				ref.ids = append(ref.ids, i)
				k := i + 1
				if i == 1440 || i == 5 {
					k += 1e5
				}
				loc.ids = append(loc.ids, k)
			}
			stop := make(chan int)
			defer close(stop)
			go func() {
				for {
					select {
					case <-stop:
						return
					case <-time.After(time.Second):
						eng.Alive()
					}
				}
			}()
			ref.write("ref.bin")
			loc.write("local")
			if r := gosyncCmd("build", "--blocksize", strconv.Itoa(bs), "ref.bin"); r.code != 0 {
				eng.Failf("build of a file of %d bytes: %s", ref.size(), r)
				return
			}
			want := indexHeader(ref.size(), bs)
			for _, c := range ref.chunks() {
				want = append(append(want, c.WeakChecksum...), c.StrongChecksum...)
			}
			if ix, err := os.ReadFile("ref.gosync"); err != nil || !bytes.Equal(ix, want) {
				eng.Failf("build of a file of %d bytes in blocks of %d: the index differs from the documented format at byte %d (%v)", ref.size(), bs, diffAt(ix, want), err)
				return
			}
			httpServer.reset(func(_ int, a, b int64, _ *http.Request) answer {
				d := make([]byte, b-a)
				n, _ := ref.ReadAt(d, a)
				return answer{raw: response(206, d[:n])}
			})
			must(syscall.Mkfifo("out", 0600))
			out := &hugeOutput{want: ref, bad: -1, buf: make([]byte, 1<<20)}
			pipe, err := os.OpenFile("out", os.O_RDONLY|syscall.O_NONBLOCK, 0)
			must(err)
			// no end of file before the command is done
			hold, err := os.OpenFile("out", os.O_WRONLY, 0)
			must(err)
			done := make(chan int)
			go func() {
				b := make([]byte, 1<<20)
				for {
					n, err := pipe.Read(b)
					out.Write(b[:n])
					if err != nil {
						close(done)
						return
					}
				}
			}()
			r := gosyncCmd("patch", "local", "ref.gosync", httpServer.url(), "out")
			hold.Close()
			<-done
			pipe.Close()
			eng.Eval(1)
			if e := hugeExact(nil, out, nil, ""); e != "" || r.code != 0 {
				eng.Failf("patch of a file of %d bytes into one of %d bytes: %s, %s", loc.size(), ref.size(), r, e)
			}
		})
	})
}

// hugeOutput compares what is written with a file.
type hugeOutput struct {
	want *hugeBlocks
	pos  int64
	bad  int64 // where the first wrong byte is (-1: nowhere)
	buf  []byte
}

func (h *hugeOutput) Write(b []byte) (int, error) {
	for n := 0; n < len(b); {
		m := len(b) - n
		if m > len(h.buf) {
			m = len(h.buf)
		}
		k, _ := h.want.ReadAt(h.buf[:m], h.pos)
		if !bytes.Equal(h.buf[:k], b[n:n+m]) && h.bad < 0 {
			h.bad = h.pos + int64(diffAt(h.buf[:k], b[n:n+m]))
		}
		h.pos += int64(m)
		n += m
	}
	return len(b), nil
}

// hugeRemote serves blocks of a file.
type hugeRemote struct {
	file    *hugeBlocks
	results chan patcher.BlockReponse
	spans   []string
}

func (h *hugeRemote) GetResultChannel() <-chan patcher.BlockReponse { return h.results }
func (h *hugeRemote) EncounteredError() <-chan error                { return nil }
func (h *hugeRemote) RequestBlocks(m patcher.MissingBlockSpan) error {
	h.spans = append(h.spans, fmt.Sprintf("%d-%d", m.StartBlock, m.EndBlock))
	b := make([]byte, int64(m.EndBlock-m.StartBlock+1)*m.BlockSize)
	n, _ := h.file.ReadAt(b, int64(m.StartBlock)*m.BlockSize)
	go func() { h.results <- patcher.BlockReponse{StartBlock: m.StartBlock, Data: b[:n]} }()
	return nil
}

func hugeExact(err error, out *hugeOutput, rem *hugeRemote, missing string) string {
	switch {
	case err != nil:
		return fmt.Sprintf("error %v", err)
	case out.bad >= 0:
		return fmt.Sprintf("the output is wrong at byte %d", out.bad)
	case out.pos != out.want.size():
		return fmt.Sprintf("wrote %d bytes", out.pos)
	}
	return ""
}

func hugeRequests(err error, out *hugeOutput, rem *hugeRemote, missing string) string {
	if got := strings.Join(rem.spans, " "); got != missing {
		return fmt.Sprintf("requested blocks %s, but blocks %s are missing (error %v)", got, missing, err)
	}
	return ""
}

// hugePatches patch files of more bytes than 32 bits can count.
func hugePatches(check func(err error, out *hugeOutput, rem *hugeRemote, missing string) string, tier string, emit func(eng.Case)) {
	type cfg struct {
		bs, n, tail, conc int
		lead              int
		missing           []int // blocks that the local file does not have
		extra             int   // blocks in front of them
	}
	cfgs := []cfg{{bs: 3000017, n: 1450, tail: 12345, conc: 8, lead: 3, missing: []int{2, 1448, 1449}}}
	if tier != "quick" {
		cfgs = append(cfgs, cfg{bs: 30000001, n: 145, tail: 12345, conc: 8, lead: 3, missing: []int{2, 143, 144}},
			cfg{bs: 1 << 25, n: 131, tail: 1 << 25, conc: 3, missing: []int{0, 64, 129}},
			cfg{bs: 10000019, n: 445, tail: 1, conc: 5, lead: 1, missing: []int{429, 430, 440}},
			cfg{bs: 10000019, n: 3, tail: 1000, conc: 4, lead: 1, missing: []int{1}, extra: 440})
	}
	for _, c := range cfgs {
		batch(emit, fmt.Sprintf("huge-bs%d-n%d-conc%d", c.bs, c.n, c.conc), func() {
			ref := &hugeBlocks{body: filler(9, c.bs), tail: c.tail}
			for i := 0; i < c.n; i++ {
				ref.ids = append(ref.ids, uint32(i+1))
			}
			loc := &hugeBlocks{body: ref.body, tail: c.tail, lead: filler(8, c.lead)}
			for i := 0; i < c.extra; i++ {
				loc.ids = append(loc.ids, uint32(1e6+i))
			}
			for i := 0; i < c.n; i++ {
				loc.ids = append(loc.ids, uint32(i+1))
			}
			want := ""
			for k, i := range c.missing {
				loc.ids[c.extra+i] += 1e5
				if k > 0 && c.missing[k-1] == i-1 {
					want = want[:strings.LastIndexByte(want, '-')+1] + strconv.Itoa(i)
				} else {
					want += fmt.Sprintf(" %d-%d", i, i)
				}
			}
			var err error
			out := &hugeOutput{want: ref, bad: -1, buf: make([]byte, 1<<20)}
			rem := &hugeRemote{file: ref, results: make(chan patcher.BlockReponse)}
			vs.Unscheduled(func() {
				list := ref.chunks()
				sum := &gosync.BasicSummary{BlockSize: uint(c.bs), BlockCount: uint(c.n), FileSize: ref.size(),
					ChecksumIndex: index.MakeChecksumIndex(list), ChecksumLookup: chunks.StrongChecksumGetter(list)}
				old := gosync.DefaultConcurrency
				gosync.DefaultConcurrency = c.conc
				r := &gosync.RSync{Input: loc, Source: rem, Output: out, Summary: sum}
				err = r.Patch()
				gosync.DefaultConcurrency = old
			})
			eng.Eval(1)
			if e := check(err, out, rem, strings.TrimSpace(want)); e != "" {
				eng.Failf("a reference of %d bytes, a local file of %d bytes, block size %d, %d matchers: %s", ref.size(), loc.size(), c.bs, c.conc, e)
			}
		})
	}
}
