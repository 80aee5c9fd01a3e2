package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"verif/mc/eng"
)

// ---- the command-line tool ----

type cliRun struct {
	code     int
	out, err string
	hang     bool
}

// gosyncCmd runs the command built from the working tree.
func gosyncCmd(args ...string) *cliRun {
	ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, os.Getenv("MC_GOSYNC"), args...)
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	err := c.Run()
	r := &cliRun{out: o.String(), err: e.String(), hang: ctx.Err() != nil}
	if c.ProcessState == nil {
		panic("harness: cannot run " + os.Getenv("MC_GOSYNC") + ": " + err.Error())
	}
	r.code = c.ProcessState.ExitCode()
	return r
}

func (r *cliRun) crashed() bool {
	return r.code < 0 || strings.Contains(r.err, "goroutine ") && strings.Contains(r.err, ".go:") || strings.HasPrefix(r.err, "panic:") || strings.Contains(r.err, "\npanic:") || strings.Contains(r.err, "fatal error:")
}

func (r *cliRun) String() string {
	s := strings.TrimSpace(r.err)
	if len(s) > 300 {
		s = s[:300]
	}
	return fmt.Sprintf("exit status %d, %q", r.code, s)
}

// indexFile is the documented format, from scratch.
func indexFile(f []byte, bs int) []byte {
	w := indexHeader(int64(len(f)), bs)
	for _, c := range chunksOf(f, bs) {
		w = append(append(w, c.WeakChecksum...), c.StrongChecksum...)
	}
	return w
}

func indexHeader(size int64, bs int) []byte {
	var w bytes.Buffer
	w.WriteString("G0S9NC")
	for _, v := range []uint16{0, 2, 1} {
		binary.Write(&w, binary.LittleEndian, v)
	}
	binary.Write(&w, binary.LittleEndian, size)
	binary.Write(&w, binary.LittleEndian, uint32(bs))
	return w.Bytes()
}

func c23(tier string, emit func(eng.Case)) {
	hugeCommands(emit)
	// round trips
	type trip struct {
		name string
		ref  []byte
		bs   int
	}
	var trips []trip
	for _, bs := range []int{1, 2, 5, 16, 700} {
		for _, n := range pick(tier, []int{0, 1, bs - 1, bs, bs + 1, 3 * bs, 4*bs - 1}, []int{0, 1, bs / 2, bs - 1, bs, bs + 1, 2*bs - 1, 2 * bs, 2*bs + 1, 3 * bs, 4*bs - 1, 7*bs + bs/3}) {
			if n < 0 {
				continue
			}
			dup := false
			for _, t := range trips {
				dup = dup || t.bs == bs && len(t.ref) == n
			}
			if !dup {
				trips = append(trips, trip{fmt.Sprintf("bs%d-size%d", bs, n), filler(uint32(bs*7+n), n), bs})
			}
		}
	}
	trips = append(trips, trip{"repeats", bytes.Repeat([]byte("abab"), 9), 4}, trip{"zeros", make([]byte, 100), 8},
		trip{"default block size", filler(8, 100_000), 0}, trip{"long", filler(8, 3_000_000), 0}, trip{"long-odd", filler(8, 2_500_001), 99_991}, trip{"many", filler(9, 3*66_001+1), 3},
		trip{"large blocks", filler(10, 2*(1<<24+4)+7), 1<<24 + 4}, trip{"large block", filler(11, 1<<25), 1 << 25})
	words("ab", 0, pick(tier, 3, 5), func(w []byte) {
		trips = append(trips, trip{fmt.Sprintf("word-%q", w), append([]byte(nil), w...), 2})
	})
	for _, t := range trips {
		batch(emit, "trip "+t.name, func() {
			inScratch(func(dir string) {
				ref := t.ref
				put("ref.bin", ref)
				args := []string{"build", "--blocksize", strconv.Itoa(t.bs), "ref.bin"}
				bs := t.bs
				if bs == 0 {
					args, bs = []string{"build", "ref.bin"}, 8192
				}
				b := gosyncCmd(args...)
				ix, err := os.ReadFile("ref.gosync")
				if b.code != 0 || err != nil {
					eng.Failf("build of a file of %d bytes, block size %d: %s, %v", len(ref), bs, b, err)
					return
				}
				if want := indexFile(ref, bs); !bytes.Equal(ix, want) {
					eng.Failf("build of a file of %d bytes, block size %d: the index differs from the documented format at byte %d (%d bytes, expected %d)", len(ref), bs, diffAt(ix, want), len(ix), len(want))
				}
				if c, _ := os.ReadFile("ref.bin"); !bytes.Equal(c, ref) {
					eng.Failf("build changes the file")
				}
				cat := func(p ...[]byte) []byte { return bytes.Join(p, nil) }
				h := len(ref) / 2
				locals := [][]byte{ref, nil, cat([]byte("q"), ref), ref[:h], cat(ref[h:], ref[:h]), []byte("something else altogether"), cat(ref, ref)}
				if t.bs > 1<<20 {
					locals = [][]byte{cat([]byte("q"), ref), ref[:h]}
				}
				if t.bs == 2 && len(ref) <= 5 {
					locals = nil
					words("ab", 0, 3, func(l []byte) { locals = append(locals, append([]byte(nil), l...)) })
				}
				for _, l := range locals {
					for _, mode := range []string{"in place", "absent", "existing"} {
						put("local", l)
						os.Remove("out")
						args := []string{"patch", "local", "ref.gosync", httpServer.url()}
						res := "local"
						if mode != "in place" {
							res = "out"
							args = append(args, "out")
						}
						if mode == "existing" {
							put("out", cat(ref, []byte("old content")))
						}
						httpServer.reset(faithful(ref))
						r := gosyncCmd(args...)
						eng.Eval(1)
						got, err := os.ReadFile(res)
						if r.code != 0 || err != nil || !bytes.Equal(got, ref) {
							eng.Failf("patch of %s into %s, block size %d, output %s: %s, the output has %s (%v)", show(l), show(ref), bs, mode, r, show(got), err)
							return
						}
						if mode != "in place" {
							if c, _ := os.ReadFile("local"); !bytes.Equal(c, l) {
								eng.Failf("patch with another output changes the local file")
							}
						}
						eng.Outcome(fmt.Sprint(t.name, len(l), mode, len(httpServer.requests())))
					}
				}
			})
		})
	}
	// faithful servers that answer in other ways
	type manner struct {
		name string
		f    func(lo, hi int64, part []byte, r *http.Request) answer
	}
	manners := []manner{
		{"in chunks", func(_, _ int64, part []byte, _ *http.Request) answer { return answer{raw: chunked(206, part, 3, true)} }},
		{"until the end of the connection", func(_, _ int64, part []byte, _ *http.Request) answer { return answer{raw: unbounded(206, part)} }},
		{"one connection each", func(_, _ int64, part []byte, _ *http.Request) answer {
			return answer{raw: response(206, part, "Connection: close")}
		}},
		{"after a pause", func(_, _ int64, part []byte, _ *http.Request) answer {
			h := response(206, part)
			k := len(h) - (len(part)+1)/2
			return answer{raw: h[:k], rest: h[k:]}
		}},
		{"with more headers", func(lo, hi int64, part []byte, _ *http.Request) answer {
			return answer{raw: response(206, part, "ETag: \"1\"", "Content-Type: text/html; charset=utf-8", "Content-Encoding: identity", "Vary: *", "Cache-Control: no-store",
				fmt.Sprintf("Content-Range: bytes %d-%d/*", lo, hi-1))}
		}},
	}
	for _, code := range []int{301, 302, 303, 307, 308} {
		for hops := 1; hops <= 3; hops += 2 {
			manners = append(manners, manner{fmt.Sprintf("redirected %d times with status %d", hops, code), func(_, _ int64, part []byte, r *http.Request) answer {
				if k := strings.Count(r.URL.RawQuery, "x"); k < hops {
					return answer{raw: response(code, nil, "Location: /another/file?"+strings.Repeat("x", k+1))}
				}
				return answer{raw: response(206, part)}
			}})
		}
	}
	for _, m := range manners {
		batch(emit, "server "+m.name, func() {
			inScratch(func(dir string) {
				for _, n := range []int{1, 5, 41} {
					ref := filler(uint32(n), n)
					put("ref.gosync", indexFile(ref, 4))
					for _, l := range [][]byte{nil, ref[n/2:], append([]byte("q"), ref[:n/2]...)} {
						put("local", l)
						httpServer.reset(func(k int, lo, hi int64, r *http.Request) answer {
							if lo < 0 || hi > int64(n) || hi <= lo {
								return answer{raw: response(416, nil)}
							}
							return m.f(lo, hi, ref[lo:hi], r)
						})
						r := gosyncCmd("patch", "local", "ref.gosync", httpServer.url())
						eng.Eval(1)
						if got, err := os.ReadFile("local"); r.code != 0 || err != nil || !bytes.Equal(got, ref) {
							eng.Failf("patch of %s into %s, server answers %s: %s, the output has %s (%v)", show(l), show(ref), m.name, r, show(got), err)
							return
						}
						eng.Outcome(fmt.Sprint(m.name, n, len(l), len(httpServer.requests())))
					}
				}
			})
		})
	}
	// damaged index files
	for _, d := range []struct {
		n, bs int
	}{{22, 4}, {20, 4}, {1, 3}, {0, 4}, {9, 1}} {
		ref := filler(uint32(d.n), d.n)
		good := indexFile(ref, d.bs)
		reject := func(what string, ix []byte) {
			for _, mode := range []string{"in place", "absent", "existing"} {
				inScratch(func(dir string) {
					local := append(append([]byte(nil), ref[:d.n/2]...), "local"...)
					put("local", local)
					old := []byte("an existing output")
					args := []string{"patch", "local", "bad.gosync", httpServer.url()}
					if mode != "in place" {
						args = append(args, "out")
					}
					if mode == "existing" {
						put("out", old)
					}
					if ix != nil {
						put("bad.gosync", ix)
					}
					httpServer.reset(faithful(ref))
					r := gosyncCmd(args...)
					eng.Eval(1)
					switch {
					case r.hang:
						eng.Failf("index of %d bytes in blocks of %d, %s, output %s: no end", d.n, d.bs, what, mode)
					case r.crashed():
						eng.Failf("index of %d bytes in blocks of %d, %s, output %s: crash: %s", d.n, d.bs, what, mode, r)
					case r.code == 0:
						eng.Failf("index of %d bytes in blocks of %d, %s, output %s: success", d.n, d.bs, what, mode)
					}
					if c, _ := os.ReadFile("local"); !bytes.Equal(c, local) {
						eng.Failf("index of %d bytes in blocks of %d, %s, output %s: the local file has %s", d.n, d.bs, what, mode, show(c))
					}
					if c, _ := os.ReadFile("out"); mode == "existing" && !bytes.Equal(c, old) {
						eng.Failf("index of %d bytes in blocks of %d, %s: the output has %s", d.n, d.bs, what, show(c))
					}
					eng.Outcome(fmt.Sprint(d, what, mode, r.code))
				})
			}
		}
		each := func(name string, from, to int, f func(i int)) {
			for lo := from; lo < to; lo += 8 {
				batch(emit, fmt.Sprintf("%s %d-%d %d", name, d.n, d.bs, lo), func() {
					for i := lo; i < lo+8 && i < to; i++ {
						f(i)
					}
				})
			}
		}
		each("truncated", 0, len(good), func(i int) { reject(fmt.Sprintf("cut at byte %d", i), good[:i]) })
		each("extended", 1, 62, func(i int) {
			reject(fmt.Sprintf("%d bytes appended", i), append(append([]byte(nil), good...), filler(1, i)...))
		})
		each("signature", 0, 6*9, func(i int) {
			b := append([]byte(nil), good...)
			if i%9 == 8 {
				b[i/9] = 0
			} else {
				b[i/9] ^= 1 << uint(i%9)
			}
			reject(fmt.Sprintf("signature %q", b[:6]), b)
		})
		each("major", 1, pick(tier, 20, 257), func(i int) {
			v := uint16(i)
			if i > 10 && tier == "quick" {
				v = 1 << uint(i-4)
			}
			b := append([]byte(nil), good...)
			binary.LittleEndian.PutUint16(b[6:], v)
			reject(fmt.Sprintf("major version %d", v), b)
		})
		nb := nblocks(d.n, d.bs)
		// the number of entries and the sizes in the header
		each("entries", 0, nb+6, func(i int) {
			if i == nb {
				return
			}
			b := append([]byte(nil), good[:24]...)
			for k := 0; k < i; k++ {
				e := 24 + 20*(k%(nb+1))
				if e+20 > len(good) {
					e = 24
				}
				if nb == 0 {
					b = append(b, filler(7, 20)...)
				} else {
					b = append(b, good[e:e+20]...)
				}
			}
			reject(fmt.Sprintf("%d entries", i), b)
		})
		sizes := []int64{-1, -1 << 63, 1<<63 - 1, 1 << 40, 1 << 32, int64(d.n) + 1<<32, -int64(d.n)}
		for s := int64(0); s < int64(d.n+3*d.bs); s++ {
			sizes = append(sizes, s)
		}
		each("size", 0, len(sizes), func(i int) {
			s := sizes[i]
			if s >= 0 && (uint64(s)+uint64(d.bs)-1)/uint64(d.bs) == uint64(nb) {
				return
			}
			b := append([]byte(nil), good...)
			binary.LittleEndian.PutUint64(b[12:], uint64(s))
			reject(fmt.Sprintf("file size %d", s), b)
		})
		each("blocksize", 0, 40, func(i int) {
			v := uint32(i)
			if i > 30 {
				v = uint32(1)<<uint(i-8) + uint32(i%2)*0x80000000
			}
			if v > 0 && (uint64(d.n)+uint64(v)-1)/uint64(v) == uint64(nb) {
				return
			}
			if v == 0 && d.n == 0 {
				return
			}
			b := append([]byte(nil), good...)
			binary.LittleEndian.PutUint32(b[20:], v)
			reject(fmt.Sprintf("block size %d", v), b)
		})
		batch(emit, fmt.Sprintf("missing %d-%d", d.n, d.bs), func() { reject("missing", nil) })
	}
}

// ---- diff ----

var matchedRe = regexp.MustCompile(`Total matched blocks: *([0-9]+)`)

// checkDiff compares the reported number of matched blocks with what is there. The full blocks of ref that are
// listed in sure are known to occur alone, and those listed in not do not occur (nil: found by brute force).
func checkDiff(what string, ref, local []byte, bs, streams int) bool {
	put("local", local)
	if err := os.WriteFile("ref.gosync", indexFile(ref, bs), 0644); err != nil {
		panic(err)
	}
	r := gosyncCmd("diff", "-p", strconv.Itoa(streams), "local", "ref.gosync")
	eng.Eval(1)
	m := matchedRe.FindStringSubmatch(r.out)
	if r.hang || r.code != 0 || m == nil {
		eng.Failf("%s, block size %d, %d streams: %s, output %q", what, bs, streams, r, clipS(r.out))
		return false
	}
	got, _ := strconv.Atoi(m[1])
	min, max := occurrences(ref, local, bs)
	if got < min || got > max {
		eng.Failf("%s, block size %d, %d streams: %d blocks reported as matched, %d occur, of these %d in a place of their own", what, bs, streams, got, max, min)
		return false
	}
	eng.Outcome(fmt.Sprint(what, bs, streams, got))
	return true
}

func clipS(s string) string {
	if len(s) > 300 {
		return s[:300]
	}
	return s
}

// occurrences counts the blocks of ref that occur in local at a place no other match overlaps, and those that occur
// at all.
func occurrences(ref, local []byte, bs int) (min, max int) {
	full := len(ref) / bs
	firsts := map[string]bool{}
	blocks := map[string]bool{}
	pre := bs
	if pre > 6 {
		pre = 6
	}
	for i := 0; i < full; i++ {
		firsts[string(ref[i*bs:i*bs+pre])] = true
		blocks[string(ref[i*bs:(i+1)*bs])] = true
	}
	var places []int
	for o := 0; o+bs <= len(local); o++ {
		if firsts[string(local[o:o+pre])] && blocks[string(local[o:o+bs])] {
			places = append(places, o)
		}
	}
	alone, there := map[string]bool{}, map[string]bool{}
	for k, o := range places {
		s := string(local[o : o+bs])
		there[s] = true
		if (k == 0 || places[k-1]+bs <= o) && (k+1 == len(places) || o+bs <= places[k+1]) {
			alone[s] = true
		}
	}
	for i := 0; i < full; i++ {
		s := string(ref[i*bs : (i+1)*bs])
		if alone[s] {
			min++
		}
		if there[s] {
			max++
		}
	}
	if l := len(ref) % bs; l > 0 {
		tail := ref[len(ref)-l:]
		if bytes.Contains(local, tail) {
			max++
		}
		if bytes.HasSuffix(local, tail) && (len(places) == 0 || places[len(places)-1]+bs <= len(local)-l) {
			min++
		}
	}
	return
}

func c26(tier string, emit func(eng.Case)) {
	// short files
	type cfg struct {
		bs, ref, loc int
	}
	for _, c := range pick(tier, []cfg{{2, 4, 4}, {1, 2, 3}, {3, 4, 4}}, []cfg{{2, 5, 5}, {1, 3, 4}, {3, 6, 5}}) {
		words("ab", 1, c.ref, func(w []byte) {
			ref := append([]byte(nil), w...)
			batch(emit, fmt.Sprintf("words bs%d %q", c.bs, ref), func() {
				inScratch(func(string) {
					good, n := true, 0
					words("ab", 0, c.loc, func(l []byte) {
						n++
						good = good && checkDiff(fmt.Sprintf("reference %q, local file %q", ref, l), ref, l, c.bs, n%5+1)
					})
				})
			})
		})
	}
	// blocks planted at every offset around the borders of the streams; local files below a megabyte are not divided
	const mib = 1 << 20
	for _, bs := range pick(tier, []int{16, 61}, []int{5, 16, 61, 128}) {
		for _, size := range pick(tier, []int{mib + 3}, []int{mib, mib + 3, 2*mib - 1}) {
			for _, p := range pick(tier, []int{2, 3, 8}, []int{1, 2, 3, 4, 5, 8, 16}) {
				for lo := -2 * bs; lo <= 2*bs; lo += 8 {
					batch(emit, fmt.Sprintf("border bs%d size%d p%d %d", bs, size, p, lo), func() {
						inScratch(func(string) {
							for d := lo; d < lo+8 && d <= 2*bs; d++ {
								borders := p
								ref := filler(uint32(bs+p), borders*bs+bs/2)
								local := bytes.Repeat([]byte{'.'}, size)
								// both ways of rounding up the size of a section, and the exact quotient
								sec := size/p + bs - (size/p)%bs
								for k := 0; k < borders; k++ {
									o := (k+1)*sec + d
									if o+bs <= size && o >= 0 {
										copy(local[o:], blockOf(ref, bs, k))
									}
								}
								if d%2 == 0 {
									copy(local[size-bs/2:], ref[borders*bs:])
								}
								if !checkDiff(fmt.Sprintf("blocks at the borders of the streams %+d", d), ref, local, bs, p) {
									return
								}
							}
						})
					})
				}
			}
		}
	}
	// whole files
	for _, bs := range []int{1000, 8192, 65536} {
		for _, size := range []int{mib - 1, mib, mib + 1, 3*mib + 17} {
			batch(emit, fmt.Sprintf("whole bs%d size%d", bs, size), func() {
				ref := filler(uint32(size), size)
				cat := func(p ...[]byte) []byte { return bytes.Join(p, nil) }
				inScratch(func(string) {
					for _, p := range pick(tier, []int{1, 2, 3, 7}, []int{1, 2, 3, 4, 5, 6, 7, 8, 13, 32}) {
						for i, l := range [][]byte{ref, cat([]byte("x"), ref), ref[:size/2], ref[bs/2:], cat(ref[size/3:], ref[:size/3])} {
							if !checkDiff(fmt.Sprintf("file of %d bytes, variant %d", size, i), ref, l, bs, p) {
								return
							}
						}
					}
				})
			})
		}
	}
}

func setupCLI() {
	setupFiles()
	if os.Getenv("MC_GOSYNC") == "" {
		// when started without check.sh
		out := filepath.Join(scratchRoot, "gosync")
		c := exec.Command("go", "build", "-trimpath", "-o", out, "./cmd/gosync")
		c.Dir = "/repo"
		if b, err := c.CombinedOutput(); err != nil {
			panic("harness: " + err.Error() + string(b))
		}
		os.Setenv("MC_GOSYNC", out)
	}
}

func init() {
	eng.Register(&eng.Prop{ID: "C23", Gen: c23, Setup: setupCLI,
		Rule: "input: reference and local file, block size, output; or damage to the index file and where; the command is run as a process; distinct: by these and the result",
		Bounds: func(tier string) string {
			return "round trips for sizes around multiples of 5 block sizes and all words of up to " + pick(tier, "3", "5") + " letters, 7-15 local files each; 5 index files cut at every byte, extended by up to 61 bytes, every bit of the signature, " + pick(tier, "19", "256") + " major versions, all numbers of entries and sizes around the right ones; sparse files beyond 4 GiB; an index of more than 65536 blocks"
		},
		Assume: []string{"net/http is right", "damage that leaves the number of blocks right (a changed checksum) is the subject of C25"}})
	eng.Register(&eng.Prop{ID: "C26", Gen: c26, Setup: setupCLI,
		Rule: "input: reference, local file, block size, number of streams; the command is run as a process; distinct: by these and the reported number",
		Bounds: func(tier string) string {
			return "all pairs of short words; blocks at every offset up to two blocks around every border of " + pick(tier, "2, 3 and 8", "1 to 16") + " streams; files around one megabyte and larger"
		},
		Assume: []string{"the output format of diff"}})
}

// ---- exit status, and what the commands leave alone ----

// cmdCase is one run of the command. prepare makes the files; may says which files may differ afterwards.
type cmdCase struct {
	name    string
	prepare func()
	args    []string
	limit   int      // on the size of files (-1: none)
	fails   bool     // must fail
	works   bool     // must succeed
	want    string   // file that must have content after success
	content []byte   // that content
	may     []string // files that the command may create or change
	onlyOK  []string // files that it may change only when it succeeds
}

func runCmd(c cmdCase) (r *cliRun) {
	inScratch(func(dir string) {
		must(os.Mkdir("cwd", 0755))
		must(os.Chdir("cwd"))
		if c.prepare != nil {
			c.prepare()
		}
		before := listing(dir)
		restore := func() {}
		if c.limit >= 0 {
			restore = setLimit(uint64(c.limit))
		}
		r = gosyncCmd(c.args...)
		restore()
		after := listing(dir)
		eng.Eval(1)
		fail := func(f string, a ...any) {
			eng.Failf("%s: gosync %q: %s: %s", c.name, c.args, r, fmt.Sprintf(f, a...))
		}
		switch {
		case r.hang:
			fail("no end")
		case c.fails && r.code == 0:
			fail("success is reported")
		case c.works && r.code != 0:
			fail("failure is reported")
		case r.code != 0 && strings.TrimSpace(r.err)+strings.TrimSpace(r.out) == "":
			fail("no message")
		}
		if c.want != "" && r.code == 0 {
			if b, ok := after[filepath.Join("cwd", c.want)]; !ok || b != string(c.content) {
				fail("success, but %s has %s, expected %s", c.want, show([]byte(b)), show(c.content))
			}
		}
		free := map[string]bool{}
		for _, f := range c.may {
			free[filepath.Join("cwd", f)] = true
		}
		if r.code == 0 {
			for _, f := range c.onlyOK {
				free[filepath.Join("cwd", f)] = true
			}
		}
		for n, b := range before {
			if a, ok := after[n]; !free[n] && (!ok || a != b) {
				fail("the file %s had %s and now has %s (exists: %v)", n, show([]byte(b)), show([]byte(a)), ok)
			}
		}
		for n, a := range after {
			if _, ok := before[n]; !ok && !free[n] {
				fail("the file %s is new, with %s", n, show([]byte(a)))
			}
		}
		eng.Outcome(fmt.Sprint(c.name, c.args, c.limit, r.code))
	})
	return
}

func c29(tier string, emit func(eng.Case)) {
	one := func(key string, cs ...cmdCase) {
		batch(emit, key, func() {
			for _, c := range cs {
				runCmd(c)
			}
		})
	}
	cat := func(p ...[]byte) []byte { return bytes.Join(p, nil) }
	ref := filler(5, 23)
	const bs = 4
	good := indexFile(ref, bs)
	s := strconv.Itoa
	// build
	var ok, sizes []cmdCase
	for _, n := range []struct{ in, out string }{{"ref.bin", "ref.gosync"}, {"ref", "ref.gosync"}, {"a.b.c", "a.b.gosync"}, {"./ref.bin", "ref.gosync"}, {"d.x/ref", "d.x/ref.gosync"}, {"with space.txt", "with space.gosync"}, {"ref.gosync.bin", "ref.gosync.gosync"}, {"ref.GOSYNC", "ref.gosync"}, {"ref.gosynx", "ref.gosync"}} {
		args := []string{"build", "--blocksize", s(bs), n.in}
		for _, old := range []string{"", "short", string(filler(6, 1000))} {
			ok = append(ok, cmdCase{name: "build", limit: -1, args: args, works: true, want: filepath.Clean(n.out), content: good, may: []string{n.out}, prepare: func() {
				must(os.MkdirAll(filepath.Dir(n.in), 0755))
				put(n.in, ref)
				put("other", []byte("x"))
				if old != "" {
					put(n.out, []byte(old))
				}
			}})
		}
	}
	one("build works", ok...)
	for _, l := range []int{0, 1, 3, 4, 5, 8, 23} {
		f := ref[:l]
		for _, b := range []int{1, 2, 3, 4, 8, 100} {
			ix := indexFile(f, b)
			for n := -1; n <= len(ix); n++ {
				if tier == "quick" && n > 26 && n%7 != 0 && n < len(ix)-21 {
					continue
				}
				sizes = append(sizes, cmdCase{name: fmt.Sprintf("build of %d bytes, writing fails after %d of %d bytes", l, n, len(ix)), limit: n, fails: n >= 0 && n < len(ix), works: n < 0 || n == len(ix),
					args: []string{"build", "--blocksize", s(b), "ref.bin"}, prepare: func() { put("ref.bin", f) }, want: "ref.gosync", content: ix, may: []string{"ref.gosync"}})
			}
		}
	}
	for i := 0; i < len(sizes); i += 8 {
		j := i + 8
		if j > len(sizes) {
			j = len(sizes)
		}
		one(fmt.Sprintf("build limit %d", i), sizes[i:j]...)
	}
	link := func(f func(old, new string) error, old, new string) func() {
		return func() {
			put("ref.bin", ref)
			must(f(old, new))
		}
	}
	plain := func() { put("ref.bin", ref) }
	bfail := func(name string, prepare func(), args ...string) {
		one("build "+name, cmdCase{name: "build, " + name, limit: -1, prepare: prepare, args: append([]string{"build"}, args...), fails: true, may: []string{"d.gosync", "d/.gosync", "empty.gosync"}})
	}
	bfail("no name", nil)
	bfail("empty name", nil, "")
	bfail("missing file", plain, "other.bin")
	bfail("missing directory", plain, "no/ref.bin")
	bfail("directory", func() { must(os.Mkdir("d", 0755)) }, "d")
	bfail("directory with slash", func() { must(os.Mkdir("d", 0755)) }, "d/")
	bfail("its own index", func() { put("ref.gosync", ref) }, "--blocksize", "4", "ref.gosync")
	bfail("its own index, with dot", func() { put("ref.gosync", ref) }, "--blocksize", "4", "./ref.gosync")
	bfail("an index of an index", func() { put("ref.gosync", good) }, "ref.gosync")
	bfail("empty file as its own index", func() { put("ref.gosync", nil) }, "ref.gosync")
	bfail("symbolic link from the index", link(os.Symlink, "ref.bin", "ref.gosync"), "--blocksize", "4", "ref.bin")
	bfail("hard link from the index", link(os.Link, "ref.bin", "ref.gosync"), "--blocksize", "4", "ref.bin")
	bfail("symbolic link to the index", func() { put("ref.gosync", ref); must(os.Symlink("ref.gosync", "ref.bin")) }, "--blocksize", "4", "ref.bin")
	bfail("index is a directory", func() { plain(); must(os.Mkdir("ref.gosync", 0755)) }, "--blocksize", "4", "ref.bin")
	bfail("index in a missing directory", link(os.Symlink, "no/such/dir", "ref.gosync"), "--blocksize", "4", "ref.bin")
	bfail("index is a full device", link(os.Symlink, "/dev/full", "ref.gosync"), "--blocksize", "4", "ref.bin")
	bfail("index of an empty file is a full device", func() { put("empty.bin", nil); must(os.Symlink("/dev/full", "empty.gosync")) }, "--blocksize", "4", "empty.bin")
	for _, b := range []string{"0", "-1", "-4", "-4294967292", "-9223372036854775808", "4294967296", "4294967300", "8589934592", "9223372036854775807", "9223372036854775808", "x", "", "4x", "1e3", "0.5"} {
		bfail("block size "+b, plain, "--blocksize="+b, "ref.bin")
		bfail("block size "+b+", empty file", func() { put("ref.bin", nil) }, "--blocksize="+b, "ref.bin")
	}
	bfail("unknown option", plain, "--block", "4", "ref.bin")
	// files that are not what their size says: an index is complete, or there is an error
	if b, err := os.ReadFile("/proc/version"); err == nil && len(b) > 0 {
		one("build size", cmdCase{name: "build, a file that announces no size", limit: -1, prepare: func() { must(os.Symlink("/proc/version", "ref.bin")) }, args: []string{"build", "--blocksize", "4", "ref.bin"},
			want: "ref.gosync", content: indexFile(b, 4), may: []string{"ref.gosync"}})
	}
	one("build unreadable", cmdCase{name: "build, a file that cannot be read", limit: -1, prepare: func() { must(os.Symlink("/proc/self/mem", "ref.bin")) }, args: []string{"build", "--blocksize", "4", "ref.bin"}, fails: true, may: []string{"ref.gosync"}})

	// diff
	local := cat(ref[8:], []byte("local"))
	files := func(ix []byte) func() {
		return func() {
			put("local", local)
			if ix != nil {
				put("ref.gosync", ix)
			}
		}
	}
	dfail := func(name string, prepare func(), args ...string) {
		one("diff "+name, cmdCase{name: "diff, " + name, limit: -1, prepare: prepare, args: append([]string{"diff"}, args...), fails: true})
	}
	var dok []cmdCase
	for _, l := range [][]byte{ref, nil, local, ref[:1], ref[:4], filler(9, 100)} {
		for _, r := range [][]byte{ref, nil, ref[:1], ref[:4], ref[:9]} {
			for _, p := range []string{"", "1", "3"} {
				args := []string{"diff", "local", "ref.gosync"}
				if p != "" {
					args = []string{"diff", "-p", p, "local", "ref.gosync"}
				}
				dok = append(dok, cmdCase{name: fmt.Sprintf("diff of %d and %d bytes", len(l), len(r)), limit: -1, args: args, works: true, prepare: func() { put("local", l); put("ref.gosync", indexFile(r, bs)) }})
			}
		}
	}
	one("diff works", dok...)
	dfail("no names", files(good))
	dfail("one name", files(good), "local")
	dfail("missing local file", files(good), "other", "ref.gosync")
	dfail("missing index", files(nil), "local", "ref.gosync")
	dfail("names exchanged", files(good), "ref.gosync", "local")
	dfail("local file is a directory", func() { files(good)(); must(os.Mkdir("d", 0755)) }, "d", "ref.gosync")
	dfail("index is a directory", func() { files(good)(); must(os.Mkdir("d", 0755)) }, "local", "d")
	dfail("local file cannot be read", func() { put("ref.gosync", good); must(os.Symlink("/proc/self/mem", "local")) }, "local", "ref.gosync")
	dfail("local file cannot be read, three streams", func() { put("ref.gosync", good); must(os.Symlink("/proc/self/mem", "local")) }, "-p", "3", "local", "ref.gosync")
	dfail("index cannot be read", func() { put("local", local); must(os.Symlink("/proc/self/mem", "ref.gosync")) }, "local", "ref.gosync")
	dfail("empty name of the local file", files(good), "", "ref.gosync")
	dfail("empty name of the index", files(good), "local", "")
	dfail("unknown option", files(good), "--streams", "2", "local", "ref.gosync")
	dfail("number of streams is not a number", files(good), "-p", "x", "local", "ref.gosync")
	for lo := 0; lo < len(good); lo += 8 {
		batch(emit, fmt.Sprintf("diff cut %d", lo), func() {
			for i := lo; i < lo+8 && i < len(good); i++ {
				if i >= 24 && (i-24)%20 == 0 {
					continue // a whole number of entries
				}
				runCmd(cmdCase{name: fmt.Sprintf("diff, index cut at byte %d", i), limit: -1, prepare: files(good[:i]), args: []string{"diff", "local", "ref.gosync"}, fails: true})
			}
			for i := lo; i < lo+8 && i < 8; i++ {
				for k := uint(0); k < 8; k++ {
					b := append([]byte(nil), good...)
					b[i] ^= 1 << k
					runCmd(cmdCase{name: fmt.Sprintf("diff, bit %d of byte %d of the index changed", k, i), limit: -1, prepare: files(b), args: []string{"diff", "local", "ref.gosync"}, fails: true})
				}
			}
		})
	}

	// patch
	u := "URL"
	type where struct {
		name string
		args []string // after the source
		res  string
	}
	wheres := []where{{"in place", nil, "local"}, {"absent", []string{"out"}, "out"}, {"existing", []string{"out"}, "out"}, {"named in place", []string{"./local"}, "local"}}
	pcase := func(name string, w where, limit int, fails, works bool, l []byte, ix []byte, script func(int, int64, int64, *http.Request) answer, names ...string) {
		prep := func() {
			put("local", l)
			if ix != nil {
				put("ref.gosync", ix)
			}
			if w.name == "existing" {
				put("out", filler(4, 50))
			}
			httpServer.reset(script)
		}
		c := cmdCase{name: "patch, " + name + ", output " + w.name, limit: limit, prepare: prep, args: append(append([]string{"patch"}, names...), w.args...), fails: fails, works: works, want: w.res, content: ref}
		if w.res == "out" {
			c.may = []string{"out"}
		} else {
			c.onlyOK = []string{"local"}
		}
		for i := range c.args {
			if c.args[i] == u {
				c.args[i] = httpServer.url()
			}
		}
		runCmd(c)
	}
	locals := [][]byte{local, nil, ref, cat([]byte("??"), ref), filler(8, 23)}
	for _, w := range wheres {
		batch(emit, "patch works "+w.name, func() {
			for _, l := range locals {
				pcase("all right", w, -1, false, true, l, good, faithful(ref), "local", "ref.gosync", u)
			}
		})
		batch(emit, "patch names "+w.name, func() {
			pcase("missing local file", w, -1, true, false, local, good, faithful(ref), "nothing", "ref.gosync", u)
			pcase("missing index", w, -1, true, false, local, nil, faithful(ref), "local", "ref.gosync", u)
			pcase("index and local file exchanged", w, -1, true, false, local, good, faithful(ref), "ref.gosync", "local", u)
			for _, src := range []string{"", "local", "no-such-file", "http://127.0.0.1:1/x", "http://", "ftp://127.0.0.1/x", "://", "http://%zz/", "file:///etc/hostname", "http://[::1", "\x7f"} {
				pcase(fmt.Sprintf("source %q", src), w, -1, true, false, local, good, faithful(ref), "local", "ref.gosync", src)
			}
			pcase("empty name of the local file", w, -1, true, false, local, good, faithful(ref), "", "ref.gosync", u)
			pcase("empty name of the index", w, -1, true, false, local, good, faithful(ref), "local", "", u)
			pcase("empty name of the output", where{w.name, []string{""}, w.res}, -1, true, false, local, good, faithful(ref), "local", "ref.gosync", u)
			pcase("empty name too many", where{w.name, []string{"out", ""}, w.res}, -1, true, false, local, good, faithful(ref), "local", "ref.gosync", u)
			pcase("no source", where{w.name, nil, w.res}, -1, true, false, local, good, faithful(ref), "local", "ref.gosync")
			pcase("no index", where{w.name, nil, w.res}, -1, true, false, local, good, faithful(ref), "local")
			pcase("no names", where{w.name, nil, w.res}, -1, true, false, local, good, faithful(ref))
			pcase("too many names", where{w.name, []string{"out", "more"}, w.res}, -1, true, false, local, good, faithful(ref), "local", "ref.gosync", u)
			pcase("unknown option", w, -1, true, false, local, good, faithful(ref), "--streams", "3", "local", "ref.gosync", u)
		})
		batch(emit, "patch servers "+w.name, func() {
			for k := -1; k < 3; k++ {
				for name, f := range leftFailures() {
					hit := false
					for _, l := range [][]byte{filler(8, 23), cat(ref[4:8], []byte("#"), ref[12:16]), ref[:20]} {
						pcase(fmt.Sprintf("%s at request %d", name, k), w, -1, true, false, l, good, func(n int, a, b int64, r *http.Request) answer {
							if n == k || k < 0 {
								hit = true
								if x := f(cut(ref, a, b)); x.raw != nil {
									return x
								}
								return answer{reset: true}
							}
							// the others answer only after this one has been asked
							return faithful(ref)(n, a, b, r)
						}, "local", "ref.gosync", u)
						if !hit || k > 0 {
							break
						}
					}
				}
				if k >= 0 {
					break // the number of requests is up to the command
				}
			}
		})
		batch(emit, "patch limits "+w.name, func() {
			for _, l := range locals {
				for n := 0; n < len(ref); n++ {
					pcase(fmt.Sprintf("writing fails after %d bytes", n), where{w.name, w.args, w.res}, n, true, false, l, good, faithful(ref), "local", "ref.gosync", u)
				}
			}
		})
	}
	batch(emit, "patch outputs", func() {
		for _, o := range []struct {
			name, out string
			prepare   func()
		}{
			{"missing directory", "no/such/out", nil}, {"directory", "d", func() { must(os.Mkdir("d", 0755)) }}, {"below a file", "local/out", nil},
			{"full device", "out", func() { must(os.Symlink("/dev/full", "out")) }}, {"symbolic link into a missing directory", "out", func() { must(os.Symlink("no/such/dir", "out")) }},
			{"too long", strings.Repeat("x", 300), nil},
		} {
			for _, l := range locals {
				runCmd(cmdCase{name: "patch, output " + o.name, limit: -1, args: []string{"patch", "local", "ref.gosync", httpServer.url(), o.out}, fails: true, prepare: func() {
					put("local", l)
					put("ref.gosync", good)
					if o.prepare != nil {
						o.prepare()
					}
					httpServer.reset(faithful(ref))
				}})
			}
		}
	})
	batch(emit, "patch odd locals", func() {
		for _, l := range []string{"/proc/self/mem", "/proc/version", "/dev/null", "/proc/self/fd", "/proc/self/maps"} {
			runCmd(cmdCase{name: "patch, local file " + l, limit: -1, args: []string{"patch", "odd", "ref.gosync", httpServer.url(), "out"}, want: "out", content: ref, may: []string{"out"}, prepare: func() {
				must(os.Symlink(l, "odd"))
				put("ref.gosync", good)
				httpServer.reset(faithful(ref))
			}})
		}
	})
	one("others", cmdCase{name: "unknown option", limit: -1, args: []string{"--nothing"}, fails: true},
		cmdCase{name: "help", limit: -1, args: []string{"help"}, works: true}, cmdCase{name: "version", limit: -1, args: []string{"--version"}, works: true},
		cmdCase{name: "help of build", limit: -1, args: []string{"build", "--help"}, works: true})
}

func init() {
	eng.Register(&eng.Prop{ID: "C29", Gen: c29, Setup: setupCLI,
		Rule: "input: command, arguments, files, point at which writing fails, answers of the server; the command is run as a process; distinct: by these and the exit status",
		Bounds: func(tier string) string {
			return "build: 30 names and old outputs, 42 files and block sizes with writing failing after " + pick(tier, "some 50", "every number of") + " bytes, 18 unusable names, empty names, 30 impossible block sizes; diff: 90 pairs that work, every cut and every changed bit of the signature; patch: 4 kinds of output, 16 sources and names, 11 wrong answers, writing failing after every byte, 6 impossible outputs"
		},
		Assume: []string{"errors of the file system other than these are not produced"}})
}
