package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/patcher"
	"verif/mc/eng"
	"verif/mc/vs"
)

// ---- what a finished patch leaves behind ----

// memTransport answers requests in the goroutine that makes them. Answers may be held back.
type memTransport struct {
	script func(k int, a, b int64, r *http.Request) answer
	held   func(k int) bool
	hold   vs.Queue
	free   bool
	n      int
	bodies []*memBody
}

type memBody struct {
	r           io.ReadCloser
	k           int
	closed, end bool
}

func (b *memBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err != nil {
		b.end = true
	}
	return n, err
}

func (b *memBody) Close() error {
	b.closed = true
	return b.r.Close()
}

var errTransport = errors.New("transport-failure-1234")

func (t *memTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	k := t.n
	t.n++
	if t.held != nil && t.held(k) && !t.free && vs.On() {
		t.hold.Wait("answer held back")
	} else {
		vs.Pause()
	}
	if r.Body != nil {
		r.Body.Close()
	}
	a, b, _ := parseRange(r.Header.Get("Range"))
	ans := t.script(k, a, b, r)
	if ans.raw == nil {
		return nil, errTransport
	}
	res, err := http.ReadResponse(bufio.NewReader(bytes.NewReader(ans.raw)), r)
	if err != nil {
		return nil, err
	}
	mb := &memBody{r: res.Body, k: k}
	t.bodies = append(t.bodies, mb)
	res.Body = mb
	return res, nil
}

func (t *memTransport) release() {
	t.free = true
	t.hold.WakeAll()
}

// transport is what all clients of this process use while C28 runs.
var transport http.RoundTripper = http.DefaultTransport

type switchTransport struct{}

func (switchTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	return transport.RoundTrip(r)
}

func setupLeftovers() {
	setupFiles()
	http.DefaultTransport = switchTransport{}
	http.DefaultClient.Transport = switchTransport{}
	blocksources.ClientNoCompression.Transport = switchTransport{}
}

// openFiles lists the descriptors of files that are open in this process.
func openFiles() map[string]string {
	m := map[string]string{}
	d, err := os.Open("/proc/self/fd")
	must(err)
	defer d.Close()
	ents, err := d.Readdirnames(-1)
	must(err)
	for _, e := range ents {
		t, err := os.Readlink("/proc/self/fd/" + e)
		if err != nil || !strings.HasPrefix(t, "/") || strings.HasPrefix(t, "/proc/") || strings.HasPrefix(t, "/dev/") || strings.HasPrefix(t, "/sys/") {
			continue
		}
		m[e+" "+t] = t
	}
	return m
}

func newFiles(before map[string]string) string {
	var s []string
	for k, t := range openFiles() {
		if _, ok := before[k]; !ok {
			s = append(s, t)
		}
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

type leftCase struct {
	what      string
	layout    layout
	p         pair
	conc      int
	script    func(k int, a, b int64, r *http.Request) answer
	held      func(k int) bool
	paths     func(local, out string) (string, string)
	made      func(r *gosync.RSync)
	patched   func(r *gosync.RSync)
	skipPatch bool
	twice     bool
	undo      func()
}

// leftovers makes one patch and looks at what it leaves. It reports whether the failing step was reached.
func leftovers(c leftCase) (t *memTransport, failed bool) {
	t = &memTransport{script: c.script, held: c.held}
	transport = t
	inScratch(func(dir string) {
		local, out := c.layout.prepare(dir, c.p.local, c.p.ref)
		if c.paths != nil {
			local, out = c.paths(local, out)
		}
		httpServer.reset(c.script)
		before, files := listing(dir), openFiles()
		others := len(vs.Others())
		fail := func(f string, a ...any) {
			eng.Failf("%s, output %s, local file %s, reference %s, block size %d, %d transfers: %s", c.what, c.layout.name, show(c.p.local), show(c.p.ref), c.p.bs, c.conc, fmt.Sprintf(f, a...))
		}
		old := gosync.DefaultConcurrency
		gosync.DefaultConcurrency = c.conc
		defer func() { gosync.DefaultConcurrency = old }()
		r, makeErr := gosync.MakeRSync(local, httpServer.url(), out, summaryOf(c.p.ref, c.p.bs))
		var patchErr, closeErr error
		if makeErr == nil {
			if c.made != nil {
				c.made(r)
			}
			if !c.skipPatch {
				patchErr = r.Patch()
			}
			if c.patched != nil {
				c.patched(r)
			}
			closeErr = r.Close()
			if c.twice {
				vs.Quiesce()
				r.Close()
			}
		}
		if c.undo != nil {
			c.undo()
		}
		eng.Eval(1)
		failed = makeErr != nil || patchErr != nil || closeErr != nil
		steps := fmt.Sprintf("make %v, patch %v, close %v", makeErr, patchErr, closeErr)
		if s := newFiles(files); s != "" {
			fail("%s: still open: %s", steps, s)
		}
		t.release()
		vs.Quiesce()
		if o := vs.Others(); len(o) > others {
			fail("%s: goroutines that never end: %s", steps, strings.Join(o, ", "))
		}
		for _, b := range t.bodies {
			if !b.closed && !b.end {
				fail("%s: the body of answer %d is not closed", steps, b.k)
			}
		}
		if makeErr == nil && r.Source != nil {
			// a source that has ended says so, instead of waiting for ever
			refused := false
			vs.Go2(func() { refused = r.Source.RequestBlocks(patcher.MissingBlockSpan{BlockSize: int64(c.p.bs)}) != nil })
			vs.Quiesce()
			if !refused {
				fail("%s: the block source still takes requests", steps)
			}
		}
		for n, b := range listing(dir) {
			if _, ok := before[n]; ok || n == "out" || n == "target" || n == out {
				continue
			}
			// a complete result that could not be copied may stay
			if makeErr == nil && !c.skipPatch && patchErr == nil && closeErr != nil && b == string(c.p.ref) {
				continue
			}
			fail("%s: the file %q is left, with %s", steps, n, show([]byte(b)))
		}
		vs.Outcome("%s %s %v %v %v %d", c.what, c.layout.name, makeErr != nil, patchErr != nil, closeErr != nil, t.n)
	})
	transport = switchOff
	return
}

var switchOff = http.RoundTripper(&http.Transport{DisableKeepAlives: true})

// failures are ways for a request to fail.
func leftFailures() map[string]func(d []byte) answer {
	return map[string]func(d []byte) answer{
		"status 404":       func(d []byte) answer { return answer{raw: response(404, []byte("no such file"))} },
		"status 500":       func(d []byte) answer { return answer{raw: response(500, d)} },
		"status 200":       func(d []byte) answer { return answer{raw: response(200, d)} },
		"gzip":             func(d []byte) answer { return answer{raw: response(206, gzipped(d), "Content-Encoding: gzip")} },
		"no connection":    func(d []byte) answer { return answer{} },
		"other content":    func(d []byte) answer { return answer{raw: response(206, bytes.Repeat([]byte{'~'}, len(d)))} },
		"too short":        func(d []byte) answer { return answer{raw: response(206, d[:len(d)-1])} },
		"too long":         func(d []byte) answer { return answer{raw: response(206, append(append([]byte(nil), d...), "more"...))} },
		"cut off":          func(d []byte) answer { return answer{raw: claims(206, len(d)+5, d)} },
		"broken chunks":    func(d []byte) answer { return answer{raw: chunked(206, d, 3, false)} },
		"status 416 empty": func(d []byte) answer { return answer{raw: response(416, nil)} },
	}
}

func c28(tier string, emit func(eng.Case)) {
	long := filler(3, 45)
	moved := bytes.Join([][]byte{long[20:], long[:20]}, nil)
	ps := []pair{
		{"none", []byte("zz"), long[:22], 4}, {"move", moved, long, 5}, {"shrink", long, long[:23], 4}, {"grow", long[:17], long, 4},
		{"same", long, long, 7}, {"to empty", long, nil, 4}, {"from empty", nil, long[:20], 3}, {"both empty", nil, nil, 2},
		{"holes", bytes.Join([][]byte{long[0:3], []byte("#"), long[6:9], []byte("#"), long[12:15]}, nil), long[:20], 3},
	}
	words("ab", 0, pick(tier, 2, 3), func(r []byte) {
		ref := append([]byte(nil), r...)
		words("ab", 0, pick(tier, 2, 3), func(l []byte) {
			ps = append(ps, pair{fmt.Sprintf("%q-%q", l, ref), append([]byte(nil), l...), ref, 2})
		})
	})
	fails := leftFailures()
	var kinds []string
	for k := range fails {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	failAt := func(p pair, at int, f func(d []byte) answer) func(int, int64, int64, *http.Request) answer {
		return func(k int, a, b int64, r *http.Request) answer {
			d := cut(p.ref, a, b)
			if (k == at || at < 0) && len(d) > 0 {
				return f(d)
			}
			return answer{raw: response(206, d)}
		}
	}
	for _, lo := range layouts() {
		for _, p := range ps {
			ok := faithful(p.ref)
			batch(emit, fmt.Sprintf("steps %s %s", lo.name, p.name), func() {
				for conc := 1; conc <= 3; conc++ {
					do := func(what string, f func(c *leftCase)) {
						c := leftCase{what: what, layout: lo, p: p, conc: conc, script: ok}
						if f != nil {
							f(&c)
						}
						leftovers(c)
					}
					do("no failure", nil)
					do("closed twice", func(c *leftCase) { c.twice = true })
					do("closed without patching", func(c *leftCase) { c.skipPatch = true })
					do("closed twice without patching", func(c *leftCase) { c.skipPatch, c.twice = true, true })
					do("the local file is closed before patching", func(c *leftCase) {
						c.made = func(r *gosync.RSync) { r.Input.(io.Closer).Close() }
					})
					do("the output is closed before patching", func(c *leftCase) {
						c.made = func(r *gosync.RSync) { r.Output.(io.Closer).Close() }
					})
					do("the local file is closed after patching", func(c *leftCase) {
						c.patched = func(r *gosync.RSync) { r.Input.(io.Closer).Close() }
					})
					do("the output is closed after patching", func(c *leftCase) {
						c.patched = func(r *gosync.RSync) { r.Output.(io.Closer).Close() }
					})
					do("both are closed after patching", func(c *leftCase) {
						c.patched = func(r *gosync.RSync) { r.Output.(io.Closer).Close(); r.Input.(io.Closer).Close() }
					})
					do("the source is closed before patching", func(c *leftCase) {
						c.made = func(r *gosync.RSync) { r.Source.(io.Closer).Close() }
					})
					do("the source is closed after patching", func(c *leftCase) {
						c.patched = func(r *gosync.RSync) { r.Source.(io.Closer).Close() }
					})
					do("the local file is cut to nothing before patching", func(c *leftCase) {
						c.made = func(r *gosync.RSync) { must(os.Truncate("local", 0)) }
						if strings.Contains(lo.name, "directory") || strings.HasPrefix(lo.name, "local is") {
							c.made = nil
						}
					})
					for _, step := range []string{"patching", "finishing"} {
						for n := 0; n < len(p.ref) && n < pick(tier, 6, 60); n++ {
							do(fmt.Sprintf("%s fails after %d bytes", step, n), func(c *leftCase) {
								restore := func() {}
								set := func(r *gosync.RSync) { restore = setLimit(uint64(n)) }
								if step == "patching" {
									c.made = set
								} else {
									c.patched = set
								}
								c.undo = func() { restore() }
							})
						}
					}
					if lo.same {
						do("the temporary file is gone", func(c *leftCase) {
							c.patched = func(r *gosync.RSync) { must(os.Remove(outName(r))) }
						})
						do("the final file is a directory", func(c *leftCase) {
							c.patched = func(r *gosync.RSync) {
								real, err := filepath.EvalSymlinks(lo.result)
								must(err)
								must(os.Remove(real))
								must(os.Mkdir(real, 0755))
							}
						})
					}
					for _, o := range []struct {
						name       string
						local, out string
					}{{"no local file", "nothing", "out"}, {"no directory for the output", "", "no/such/out"}, {"the output is a directory", "", "."}, {"the local file is a directory", ".", "out"}, {"the output is below a file", "", "local/out"}, {"a name that is too long", "", strings.Repeat("x", 300)}, {"a local name that is too long", strings.Repeat("x", 300), "out"}} {
						do(o.name, func(c *leftCase) {
							c.paths = func(l, out string) (string, string) {
								if o.local != "" {
									l = o.local
								}
								return l, o.out
							}
						})
					}
					if lo.same {
						do("no temporary file can be created", func(c *leftCase) {
							c.paths = func(l, out string) (string, string) {
								d, err := os.Getwd()
								must(err)
								if !filepath.IsAbs(out) {
									out = filepath.Join(d, out)
								}
								must(os.Mkdir("gone", 0755))
								must(os.Chdir("gone"))
								must(os.Remove(filepath.Join(d, "gone")))
								return filepath.Join(d, l), out
							}
						})
					}
				}
			})
			batch(emit, fmt.Sprintf("requests %s %s", lo.name, p.name), func() {
				for conc := 1; conc <= 3; conc++ {
					for at := -1; at < 4; at++ {
						for _, kind := range kinds {
							t, _ := leftovers(leftCase{what: fmt.Sprintf("%s at request %d", kind, at), layout: lo, p: p, conc: conc, script: failAt(p, at, fails[kind])})
							if t.n <= at {
								return
							}
							for h := 0; h < 3 && h <= t.n; h++ {
								if h != at && at >= 0 {
									leftovers(leftCase{what: fmt.Sprintf("%s at request %d, request %d answered after Close", kind, at, h), layout: lo, p: p, conc: conc,
										script: failAt(p, at, fails[kind]), held: func(k int) bool { return k == h && conc > 1 && k != at && at < h }})
								}
							}
						}
					}
				}
			})
		}
	}
	// all schedules
	for _, lo := range layouts() {
		if lo.name != "absent" && lo.name != "same name" {
			continue
		}
		for _, p := range []pair{ps[0], ps[8], {"one", nil, []byte("q"), 3}} {
			for conc := 1; conc <= 2; conc++ {
				for _, kind := range []string{"", "status 500", "no connection", "other content"} {
					for at := 0; at < 2; at++ {
						if kind == "" && at > 0 {
							continue
						}
						for h := -1; h < 2; h++ {
							if h >= 0 && (conc < 2 || h <= at || kind == "") {
								continue
							}
							for _, m := range []struct {
								mask  uint32
								bound int32
							}{{0, int32(pick(tier, 1, 2))}, {1<<0 | 1<<1 | 1<<4, 1}} {
								if m.mask != 0 && tier == "quick" && (lo.name != "absent" || kind == "no connection") {
									continue
								}
								f := faithful(p.ref)
								if kind != "" {
									f = failAt(p, at, fails[kind])
								}
								emit(eng.Case{Key: fmt.Sprintf("schedules %s %s conc%d %s %d held%d k%d p%d", lo.name, p.name, conc, kind, at, h, m.mask, m.bound), Bound: m.bound, Split: true,
									Opts: vs.Opts{Mask: m.mask, Blocked: 1, MaxSteps: 400000}, Body: func() {
										leftovers(leftCase{what: fmt.Sprintf("%q at request %d, request %d answered after Close", kind, at, h), layout: lo, p: p, conc: conc, script: f,
											held: func(k int) bool { return k == h }})
									}})
							}
						}
					}
				}
			}
		}
	}
}

func init() {
	eng.Register(&eng.Prop{ID: "C28", Gen: c28, Setup: setupLeftovers, Sched: true,
		Rule: "input: local file, reference, block size, kind of output, number of transfers, step or request that fails and how, answer that arrives after Close, schedule; distinct: by these and the results of the steps",
		Bounds: func(tier string) string {
			return "15 kinds of output; 9 pairs of files and all pairs of words of up to " + pick(tier, "2", "3") + " letters; 1-3 transfers; 20 failures of files and names, " + pick(tier, "6", "all") + " points at which writing fails, 11 failures of requests 0-3 or all; schedules with " + pick(tier, "1", "2") + " preemptions at operations on channels and locks, 1 at statements"
		},
		Assume: []string{"net/http is right; requests are answered by a replaced transport in the process", "open files are those in /proc/self/fd"}})
}
