package main

import (
	"bytes"
	"crypto/md5"
	"fmt"
	"io"
	"net/http"
	"os"
	"strings"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/indexbuilder"
	"github.com/Redundancy/go-sync/patcher"
	"verif/mc/eng"
	"verif/mc/vs"
)

// ---- the documented ways to set up a patch ----

// ownSummary is a FileSummary with nothing of the library in it.
type ownSummary struct {
	bs, size int
	sums     []chunks.ChunkChecksum
	silent   bool // no checksums for verification
}

type ownWeak struct{ of []int }

func (s *ownSummary) GetBlockSize() uint  { return uint(s.bs) }
func (s *ownSummary) GetBlockCount() uint { return uint(len(s.sums)) }
func (s *ownSummary) GetFileSize() int64  { return int64(s.size) }
func (s *ownSummary) FindWeakChecksum2(w []byte) interface{} {
	var r ownWeak
	for i, c := range s.sums {
		if bytes.Equal(c.WeakChecksum, w) {
			r.of = append(r.of, i)
		}
	}
	if r.of == nil {
		return nil
	}
	return r
}

func (s *ownSummary) FindStrongChecksum2(h []byte, weak interface{}) (r []chunks.ChunkChecksum) {
	for _, i := range weak.(ownWeak).of {
		if bytes.Equal(s.sums[i].StrongChecksum, h) {
			r = append(r, s.sums[i])
		}
	}
	return
}

func (s *ownSummary) GetStrongChecksumForBlock(i int) []byte {
	if s.silent {
		return nil
	}
	return s.sums[i].StrongChecksum
}

type sumKind struct {
	name string
	size bool // the size of the file is known
	make func(ref []byte, bs int) (gosync.FileSummary, error)
}

func sumKinds() []sumKind {
	basic := func(ix *index.ChecksumIndex, l filechecksum.ChecksumLookup, ref []byte, bs int) gosync.FileSummary {
		return &gosync.BasicSummary{BlockSize: uint(bs), BlockCount: uint(nblocks(len(ref), bs)), FileSize: int64(len(ref)), ChecksumIndex: ix, ChecksumLookup: l}
	}
	return []sumKind{
		{"index from indexbuilder", true, func(ref []byte, bs int) (gosync.FileSummary, error) {
			_, ix, l, err := indexbuilder.BuildIndexFromString(filechecksum.NewFileChecksumGenerator(uint(bs)), string(ref))
			return basic(ix, l, ref, bs), err
		}},
		{"no ChecksumLookup", true, func(ref []byte, bs int) (gosync.FileSummary, error) {
			_, ix, _, err := indexbuilder.BuildChecksumIndex(filechecksum.NewFileChecksumGenerator(uint(bs)), bytes.NewReader(ref))
			return basic(ix, nil, ref, bs), err
		}},
		{"index from a stream of checksums", true, func(ref []byte, bs int) (gosync.FileSummary, error) {
			g := filechecksum.NewFileChecksumGenerator(uint(bs))
			var b bytes.Buffer
			if _, err := g.GenerateChecksums(newReader(ref), &b); err != nil {
				return nil, err
			}
			c, err := chunks.LoadChecksumsFromReader(&b, g.WeakRollingHash.Size(), g.GetStrongHash().Size())
			return basic(index.MakeChecksumIndex(c), chunks.StrongChecksumGetter(c), ref, bs), err
		}},
		{"own FileSummary", true, func(ref []byte, bs int) (gosync.FileSummary, error) {
			return &ownSummary{bs: bs, size: len(ref), sums: chunksOf(ref, bs)}, nil
		}},
		{"own FileSummary without checksums for verification", true, func(ref []byte, bs int) (gosync.FileSummary, error) {
			return &ownSummary{bs: bs, size: len(ref), sums: chunksOf(ref, bs), silent: true}, nil
		}},
	}
}

type srcKind struct {
	name string
	make func(ref []byte, bs, conc int, sum gosync.FileSummary) patcher.BlockSource
}

// plainSource is a BlockSource with nothing of the library in it.
type plainSource struct {
	ref []byte
	out chan patcher.BlockReponse
	err chan error
}

func (s *plainSource) RequestBlocks(m patcher.MissingBlockSpan) error {
	from, to := int64(m.StartBlock)*m.BlockSize, int64(m.EndBlock+1)*m.BlockSize
	if to > int64(len(s.ref)) {
		to = int64(len(s.ref))
	}
	if from > to {
		return fmt.Errorf("blocks %d-%d of %d bytes", m.StartBlock, m.EndBlock, len(s.ref))
	}
	vs.Go2(func() { vs.Send(s.out, patcher.BlockReponse{StartBlock: m.StartBlock, Data: s.ref[from:to]}) })
	return nil
}
func (s *plainSource) GetResultChannel() <-chan patcher.BlockReponse { return s.out }
func (s *plainSource) EncounteredError() <-chan error                { return s.err }

func srcKinds() []srcKind {
	verifier := func(bs int, sum gosync.FileSummary) blocksources.BlockVerifier {
		return &filechecksum.HashVerifier{Hash: md5.New(), BlockSize: uint(bs), BlockChecksumGetter: sum}
	}
	return []srcKind{
		{"reader in memory, no file size", func(ref []byte, bs, conc int, sum gosync.FileSummary) patcher.BlockSource {
			return blocksources.NewReadSeekerBlockSource(bytes.NewReader(ref), blocksources.MakeNullFixedSizeResolver(uint64(bs)))
		}},
		{"reader of a string", func(ref []byte, bs, conc int, sum gosync.FileSummary) patcher.BlockSource {
			return blocksources.NewReadSeekerBlockSource(strings.NewReader(string(ref)), blocksources.MakeFileSizedBlockResolver(uint64(bs), int64(len(ref))))
		}},
		{"file", func(ref []byte, bs, conc int, sum gosync.FileSummary) patcher.BlockSource {
			put("reference", ref)
			f, err := os.Open("reference")
			must(err)
			return closingSource{blocksources.NewReadSeekerBlockSource(f, blocksources.MakeNullFixedSizeResolver(uint64(bs))), f}
		}},
		{"HTTP, verified", func(ref []byte, bs, conc int, sum gosync.FileSummary) patcher.BlockSource {
			return blocksources.NewHttpBlockSource("http://server.test/reference", conc, blocksources.MakeFileSizedBlockResolver(uint64(bs), int64(len(ref))), verifier(bs, sum))
		}},
		{"HTTP, not verified", func(ref []byte, bs, conc int, sum gosync.FileSummary) patcher.BlockSource {
			return blocksources.NewHttpBlockSource("http://server.test/reference", conc, blocksources.MakeFileSizedBlockResolver(uint64(bs), int64(len(ref))), nil)
		}},
		{"own requester", func(ref []byte, bs, conc int, sum gosync.FileSummary) patcher.BlockSource {
			return blocksources.NewBlockSourceBase(&memRequester{ref}, blocksources.MakeFileSizedBlockResolver(uint64(bs), int64(len(ref))), verifier(bs, sum), conc, 1<<20)
		}},
		{"own block source", func(ref []byte, bs, conc int, sum gosync.FileSummary) patcher.BlockSource {
			return &plainSource{ref: ref, out: make(chan patcher.BlockReponse), err: make(chan error)}
		}},
	}
}

type closingSource struct {
	*blocksources.BlockSourceBase
	f *os.File
}

func (c closingSource) Close() error {
	err := c.BlockSourceBase.Close()
	c.f.Close()
	return err
}

// byPath serves several files.
func byPath(files map[string][]byte) func(k int, a, b int64, r *http.Request) answer {
	return func(k int, a, b int64, r *http.Request) answer {
		f, ok := files[r.URL.Path]
		if !ok || a < 0 || b > int64(len(f)) || b <= a {
			return answer{raw: response(404, nil)}
		}
		return answer{raw: response(206, f[a:b])}
	}
}

func withMatchers(n int, f func()) {
	old := gosync.DefaultConcurrency
	gosync.DefaultConcurrency = n
	defer func() { gosync.DefaultConcurrency = old }()
	f()
}

// onSetup makes one patch with a set-up and gives what is wrong.
func onSetup(sum gosync.FileSummary, sk srcKind, ref, local []byte, bs, conc int, files bool) string {
	src := sk.make(ref, bs, conc, sum)
	var in gosync.ReadSeekerAt = bytes.NewReader(local)
	mem := &bytes.Buffer{}
	var out io.Writer = mem
	if files {
		put("local", local)
		f, err := os.Open("local")
		must(err)
		defer f.Close()
		o, err := os.Create("out")
		must(err)
		defer o.Close()
		in, out = f, o
	}
	r := &gosync.RSync{Input: in, Output: out, Source: src, Summary: sum}
	err := r.Patch()
	if e := r.Close(); err == nil {
		err = e
	}
	if c, ok := src.(io.Closer); ok {
		c.Close()
	}
	if err != nil {
		return fmt.Sprint("error: ", err)
	}
	got := mem.Bytes()
	if files {
		got, err = os.ReadFile("out")
		must(err)
	}
	if !bytes.Equal(got, ref) {
		return fmt.Sprintf("wrote %s, differs at byte %d", show(got), diffAt(got, ref))
	}
	return ""
}

func c32(tier string, emit func(eng.Case)) {
	type cfg struct {
		alpha    string
		bs       int
		ref, loc int
		conc     []int
	}
	cfgs := pick(tier, []cfg{{"ab", 2, 4, 4, []int{2}}, {"ab", 3, 4, 3, []int{1}}, {"ab", 1, 3, 3, []int{3}}},
		[]cfg{{"ab", 2, 6, 6, []int{1, 2}}, {"ab", 3, 6, 5, []int{1, 2, 3}}, {"ab", 1, 4, 5, []int{3}}, {"abc", 2, 4, 4, []int{2}}})
	run := func(key string, ref []byte, bs int, concs []int, locals func(f func(local []byte))) {
		for _, s := range sumKinds() {
			batch(emit, key+" "+s.name, func() {
				inScratch(func(dir string) {
					t := &memTransport{script: byPath(map[string][]byte{"/reference": ref})}
					transport = t
					defer func() { transport = switchOff }()
					sum, err := s.make(ref, bs)
					if err != nil {
						eng.Failf("%s, reference %s, block size %d: %v", s.name, show(ref), bs, err)
						return
					}
					for _, k := range srcKinds() {
						n, bad := 0, 0
						locals(func(local []byte) {
							for _, conc := range concs {
								n++
								if bad > 2 {
									return
								}
								t.bodies = nil
								withMatchers(conc, func() {
									if e := onSetup(sum, k, ref, local, bs, conc, n%4 == 0); e != "" {
										eng.Failf("%s, %s, reference %s, local file %s, block size %d, %d matchers: %s", s.name, k.name, show(ref), show(local), bs, conc, e)
										bad++
									}
								})
								eng.Eval(1)
							}
							eng.Outcome(fmt.Sprint(s.name, k.name, bs, len(ref), len(local)))
						})
						vs.Quiesce()
						if o := vs.Others(); len(o) > 0 {
							eng.Failf("%s, %s, reference %s, block size %d: still waiting: %s", s.name, k.name, show(ref), bs, strings.Join(o, ", "))
							return
						}
					}
				})
			})
		}
	}
	for _, c := range cfgs {
		words(c.alpha, 0, c.ref, func(w []byte) {
			ref := append([]byte(nil), w...)
			run(fmt.Sprintf("words-%s-bs%d-%q", c.alpha, c.bs, ref), ref, c.bs, c.conc, func(f func([]byte)) { words(c.alpha, 0, c.loc, f) })
		})
	}
	for _, bs := range []int{2, 5, 16} {
		for _, nb := range []int{1, 3, 6} {
			for _, cut := range []int{0, 1, bs - 1} {
				ref := filler(uint32(bs+nb), bs*nb-cut)
				run(fmt.Sprintf("edits-bs%d-n%d-cut%d", bs, nb, cut), ref, bs, pick(tier, []int{2}, []int{1, 3}), func(f func([]byte)) {
					n := 0
					edits(ref, bs, func(name string, local []byte) {
						n++
						if n%pick(tier, 7, 2) == 0 {
							f(local)
						}
					})
				})
			}
		}
	}
	// by name, with every kind of summary
	for _, lo := range layouts() {
		batch(emit, "by name "+lo.name, func() {
			for _, s := range sumKinds() {
				for _, p := range []pair{{"move", []byte("defgabc"), []byte("abcdefg"), 3}, {"none", []byte("zz"), []byte("0123456789"), 4}, {"same", []byte("abab"), []byte("abab"), 2}, {"empty", []byte("abab"), nil, 2}} {
					sum, err := s.make(p.ref, p.bs)
					must(err)
					inScratch(func(dir string) {
						local, out := lo.prepare(dir, p.local, p.ref)
						transport = &memTransport{script: byPath(map[string][]byte{"/reference": p.ref})}
						defer func() { transport = switchOff }()
						for conc := 1; conc <= 3; conc++ {
							withMatchers(conc, func() {
								err := byName(local, "http://server.test/reference", out, sum)
								got, _ := os.ReadFile(lo.result)
								if err != nil || !bytes.Equal(got, p.ref) {
									eng.Failf("%s, output %s, %s, %d matchers: error %v, the output has %s", s.name, lo.name, p.name, conc, err, show(got))
								}
							})
							eng.Eval(1)
						}
						vs.Quiesce()
					})
				}
			}
		})
	}
	// several patches at once
	type two struct {
		bs, conc int
		mask     uint32
		bound    int32
		names    bool
		p        []pair
	}
	shared := []pair{{"", []byte("cXab"), []byte("abcd"), 2}, {"", []byte("cd"), []byte("abcd"), 2}}
	unlike := []pair{{"", []byte("efX"), []byte("abcdef"), 2}, {"", []byte("vwX"), []byte("uvwxy"), 2}}
	alike := []pair{{"", []byte("cX"), []byte("abcd"), 2}, {"", []byte("cX"), []byte("abcd"), 2}}
	twos := []two{
		{2, 1, 1 << 3, 2, true, alike}, {2, 1, 1 << 0, 2, true, alike}, {2, 1, 1 << 1, 2, true, alike}, {2, 2, 1 << 4, 2, true, alike}, {2, 2, 0, 2, true, alike},
		{2, 1, 0, 1, false, shared}, {2, 2, 0, 1, false, shared}, {2, 1, 1<<5 | 1<<2, 1, false, shared}, {2, 1, 1 << 0, 1, false, shared}, {2, 1, 1<<1 | 1<<4, 1, false, unlike},
		{2, 1, 0, 1, true, unlike}, {2, 1, 1 << 0, 1, true, unlike}, {2, 2, 0, 1, true, shared}, {2, 1, 1<<3 | 1<<5, 1, true, shared},
	}
	if tier != "quick" {
		twos = append(twos, two{2, 1, 0, 2, false, shared}, two{2, 2, 0, 2, false, unlike}, two{2, 1, 1<<0 | 1<<2 | 1<<5, 2, false, shared}, two{2, 1, 0, 2, true, unlike}, two{2, 2, 0, 2, true, shared},
			two{2, 1, 1<<0 | 1<<1 | 1<<4, 1, true, shared}, two{2, 1, 1 << 3, 3, true, alike}, two{2, 2, 0, 3, true, alike}, two{2, 2, 1<<0 | 1<<1 | 1<<2 | 1<<4, 1, false, append(shared[:2:2], shared[1])})
	}
	for k, c := range twos {
		emit(eng.Case{
			Key:   fmt.Sprintf("together-%d names=%v conc%d k%d p%d", k, c.names, c.conc, c.mask, c.bound),
			Bound: c.bound, Split: true,
			Opts: vs.Opts{Mask: c.mask, Blocked: 1, MaxSteps: 400000},
			Body: func() {
				inScratch(func(dir string) { severalAtOnce(c.p, c.conc, c.names, &c.p[0] == &alike[0]) })
			},
		})
	}
}

func byName(local, url, out string, sum gosync.FileSummary) error {
	r, err := gosync.MakeRSync(local, url, out, sum)
	if err != nil {
		return err
	}
	err = r.Patch()
	if e := r.Close(); err == nil {
		err = e
	}
	return err
}

// severalAtOnce makes several patches at the same time; patches into the same reference share their summary. With names, all
// are made in place in one directory. With held, the schedules start when each has made its first requests.
func severalAtOnce(ps []pair, conc int, names, held bool) {
	sums := map[string]gosync.FileSummary{}
	files := map[string][]byte{}
	for i, p := range ps {
		if sums[string(p.ref)] == nil {
			sums[string(p.ref)] = summaryOf(p.ref, p.bs)
		}
		files[fmt.Sprintf("/%d", i)] = p.ref
		if names {
			put(fmt.Sprintf("local%d", i), p.local)
		}
	}
	t := &memTransport{script: byPath(files)}
	if held {
		t.held = func(int) bool { return true }
	}
	transport = t
	defer func() { transport = switchOff }()
	vs.Fixed(held)
	errs, outs, ends := make([]error, len(ps)), make([][]byte, len(ps)), make([]bool, len(ps))
	withMatchers(conc, func() {
		for i, p := range ps {
			vs.Go2(func() {
				sum := sums[string(p.ref)]
				if names {
					n := fmt.Sprintf("local%d", i)
					errs[i] = byName(n, fmt.Sprintf("http://server.test/%d", i), n, sum)
					outs[i], _ = os.ReadFile(n)
				} else {
					var b bytes.Buffer
					src := blocksources.NewReadSeekerBlockSource(bytes.NewReader(p.ref), blocksources.MakeNullFixedSizeResolver(uint64(p.bs)))
					errs[i] = (&gosync.RSync{Input: bytes.NewReader(p.local), Output: &b, Source: src, Summary: sum}).Patch()
					src.Close()
					outs[i] = b.Bytes()
				}
				ends[i] = true
			})
		}
		vs.Quiesce()
		vs.Fixed(false)
		t.release()
		vs.Quiesce()
	})
	for i, p := range ps {
		if !ends[i] || errs[i] != nil || !bytes.Equal(outs[i], p.ref) {
			eng.Failf("%d patches at once (in place: %v): patch %d of %s into %s ended: %v, error %v, result %s", len(ps), names, i, show(p.local), show(p.ref), ends[i], errs[i], show(outs[i]))
		}
	}
	if o := vs.Others(); len(o) > 0 {
		eng.Failf("still waiting: %s", strings.Join(o, ", "))
	}
	if names {
		for n := range listing(".") {
			if !strings.HasPrefix(n, "local") {
				eng.Failf("the file %s is left", n)
			}
		}
	}
	vs.Outcome("%q %v", outs, errs)
}

func init() {
	eng.Register(&eng.Prop{ID: "C32", Gen: c32, Setup: setupLeftovers, Sched: true,
		Rule: "input: reference, local file, block size, number of matchers, kind of summary, kind of block source, input and output in memory or in files; schedule of patches at the same time; distinct: by kinds and lengths, and by results",
		Bounds: func(tier string) string {
			return "5 kinds of summary x 7 kinds of block source x all pairs of words of up to " + pick(tier, "4", "6") + " letters and one-place edits of files of up to 6 blocks; 15 kinds of output by name; 2-3 patches at once under " + pick(tier, "1", "1-2") + " preemptions"
		},
		Assume: []string{"net/http is right; requests are answered by a replaced transport in the process"}})
}
