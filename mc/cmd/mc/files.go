package main

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/blocksources"
	"verif/mc/eng"
	"verif/mc/vs"
)

// ---- patching real files by name ----

// scratchRoot is where the worker makes its directories.
var scratchRoot string

func setupFiles() {
	httpServer = newServer()
	d, err := os.MkdirTemp(os.Getenv("MC_TMP"), "files-")
	if err != nil {
		panic(err)
	}
	scratchRoot = d
	signal.Ignore(syscall.SIGXFSZ)
	setLimit(64 << 20) // nothing may fill the disk
}

// inScratch runs f in a new working directory and removes it afterwards.
func inScratch(f func(dir string)) {
	d, err := os.MkdirTemp(scratchRoot, "d")
	if err != nil {
		panic(err)
	}
	must(os.Chdir(d))
	defer func() {
		os.Chdir(scratchRoot)
		os.RemoveAll(d)
	}()
	f(d)
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func put(name string, b []byte) { must(os.WriteFile(name, b, 0644)) }

// listing gives the names and contents of all files below dir.
func listing(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			m[rel] = string(b)
		}
		return nil
	})
	return m
}

func names(m map[string]string) string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

type fileRun struct {
	makeErr, patchErr, closeErr error
	closed                      bool
}

func (r *fileRun) err() error {
	for _, e := range []error{r.makeErr, r.patchErr, r.closeErr} {
		if e != nil {
			return e
		}
	}
	return nil
}

func (r *fileRun) String() string {
	return fmt.Sprintf("make %v, patch %v, close %v", r.makeErr, r.patchErr, r.closeErr)
}

type fileHooks struct {
	made    func(r *gosync.RSync)
	patched func(r *gosync.RSync, err error)
}

// patchFiles patches by name, and closes.
func patchFiles(sum *gosync.BasicSummary, local, url, out string, conc int, h fileHooks) *fileRun {
	old := gosync.DefaultConcurrency
	gosync.DefaultConcurrency = conc
	defer func() { gosync.DefaultConcurrency = old }()
	f := &fileRun{}
	r, err := gosync.MakeRSync(local, url, out, sum)
	if err != nil {
		f.makeErr = err
		return f
	}
	if h.made != nil {
		h.made(r)
	}
	f.patchErr = r.Patch()
	if h.patched != nil {
		h.patched(r, f.patchErr)
	}
	f.closeErr = r.Close()
	f.closed = true
	if c, ok := r.Source.(interface{ Close() error }); ok {
		c.Close()
		vs.Quiesce()
	}
	// after an error the files may still be open
	if f.closeErr != nil || f.patchErr != nil {
		for _, c := range []any{r.Input, r.Output} {
			if c, ok := c.(io.Closer); ok {
				c.Close()
			}
		}
	}
	return f
}

// faithful serves a file.
func faithful(ref []byte) func(int, int64, int64, *http.Request) answer {
	return func(k int, a, b int64, r *http.Request) answer { return answer{raw: response(206, cut(ref, a, b))} }
}

// layout is the relation of output and local file.
type layout struct {
	name    string
	same    bool // the output is the local file
	prepare func(dir string, local, ref []byte) (localName, outName string)
	result  string // where the result is found
}

func layouts() []layout {
	plain := func(content func(local, ref []byte) []byte) func(string, []byte, []byte) (string, string) {
		return func(dir string, local, ref []byte) (string, string) {
			put("local", local)
			if content != nil {
				put("out", content(local, ref))
			}
			return "local", "out"
		}
	}
	cat := func(p ...[]byte) []byte { return bytes.Join(p, nil) }
	l := []layout{
		{"absent", false, plain(nil), "out"},
		{"empty", false, plain(func(l, r []byte) []byte { return nil }), "out"},
		{"shorter", false, plain(func(l, r []byte) []byte { return r[:len(r)/2] }), "out"},
		{"longer", false, plain(func(l, r []byte) []byte { return cat(r, []byte("more than that")) }), "out"},
		{"other", false, plain(func(l, r []byte) []byte { return bytes.Repeat([]byte{'?'}, len(r)) }), "out"},
		{"copy of local", false, plain(func(l, r []byte) []byte { return l }), "out"},
		{"same name", true, func(dir string, local, ref []byte) (string, string) {
			put("local", local)
			return "local", "local"
		}, "local"},
		{"same with dot", true, func(dir string, local, ref []byte) (string, string) {
			put("local", local)
			return "local", "./local"
		}, "local"},
		{"same absolute", true, func(dir string, local, ref []byte) (string, string) {
			put("local", local)
			return "local", filepath.Join(dir, "local")
		}, "local"},
		{"same in other directory", true, func(dir string, local, ref []byte) (string, string) {
			must(os.Mkdir("sub", 0755))
			put("sub/local", local)
			put("tmp_1", []byte("not mine"))
			return "sub/local", "sub/../sub/local"
		}, "sub/local"},
		{"symbolic link to local", true, func(dir string, local, ref []byte) (string, string) {
			put("local", local)
			must(os.Symlink("local", "link"))
			return "local", "link"
		}, "local"},
		{"local is a symbolic link to output", true, func(dir string, local, ref []byte) (string, string) {
			put("file", local)
			must(os.Symlink("file", "link"))
			return "link", "file"
		}, "file"},
		{"hard link to local", true, func(dir string, local, ref []byte) (string, string) {
			put("local", local)
			must(os.Link("local", "hard"))
			return "local", "hard"
		}, "hard"},
		{"symbolic link to another file", false, func(dir string, local, ref []byte) (string, string) {
			put("local", local)
			put("target", []byte("a target with some more content"))
			must(os.Symlink("target", "out"))
			return "local", "out"
		}, "target"},
		{"symbolic link to nothing", false, func(dir string, local, ref []byte) (string, string) {
			put("local", local)
			must(os.Symlink("target", "out"))
			return "local", "out"
		}, "target"},
	}
	return l
}

type pair struct {
	name       string
	local, ref []byte
	bs         int
}

// pairs of local and reference files.
func filePairs(tier string, f func(p pair)) {
	max := pick(tier, 3, 5)
	words("ab", 0, max, func(r []byte) {
		ref := append([]byte(nil), r...)
		words("ab", 0, max, func(l []byte) {
			f(pair{fmt.Sprintf("%q-%q", l, ref), append([]byte(nil), l...), ref, 2})
		})
	})
	long := filler(3, 45)
	for _, bs := range []int{4, 7, 50} {
		for i, l := range [][]byte{nil, long, long[:20], long[9:], append([]byte("xx"), long...), append(append([]byte(nil), long...), long...), bytes.Repeat([]byte("zz"), 70), bytes.Join([][]byte{long[20:], long[:20]}, nil)} {
			f(pair{fmt.Sprintf("long%d-bs%d", i, bs), l, long, bs})
			f(pair{fmt.Sprintf("short%d-bs%d", i, bs), l, long[:11], bs})
			f(pair{fmt.Sprintf("none%d-bs%d", i, bs), l, nil, bs})
		}
	}
}

func (p pair) big() bool { return len(p.ref) > 100 }

// checkAfter is the oracle of C20 after a patch.
func checkAfter(lo layout, p pair, before, after map[string]string, run *fileRun, what string) {
	fail := func(f string, a ...any) {
		eng.Failf("%s, output %s, local file %s, reference %s, block size %d, %s: %s", what, lo.name, show(p.local), show(p.ref), p.bs, run, fmt.Sprintf(f, a...))
	}
	isLocal := func(n string) bool { return n == "local" || n == "sub/local" || n == "hard" || n == "file" }
	if run.err() == nil {
		if after[lo.result] != string(p.ref) {
			fail("the output has %s", show([]byte(after[lo.result])))
		}
	}
	for n, c := range before {
		if n == lo.result && !(lo.same && run.err() != nil) {
			continue
		}
		if isLocal(n) && lo.same && run.err() == nil {
			continue // other names of the output
		}
		if n == "out" || n == "target" {
			continue // a failed patch may leave anything in the output
		}
		if run.err() != nil && run.patchErr == nil && run.makeErr == nil && isLocal(n) && lo.same {
			continue // failed while copying: C21, C22
		}
		if d, ok := after[n]; !ok || d != c {
			fail("the file %q had %s and now has %s", n, show([]byte(c)), show([]byte(d)))
		}
	}
	if lo.same && run.closed {
		for n := range after {
			if _, ok := before[n]; !ok {
				fail("the file %q is left behind", n)
			}
		}
	}
	if lo.same && lo.name == "hard link to local" && run.err() == nil && after["local"] != string(p.ref) {
		fail("the local file has %s", show([]byte(after["local"])))
	}
}

func c20(tier string, emit func(eng.Case)) {
	for _, lo := range layouts() {
		var ps []pair
		filePairs(tier, func(p pair) { ps = append(ps, p) })
		big := filler(9, 2_500_000)
		ps = append(ps, pair{"big", append([]byte("front"), big...), big, 70000}, pair{"big-shrink", big, big[:1_500_000], 70000}, pair{"big-grow", big[:100_000], big, 70000})
		group := 16
		for i := 0; i < len(ps); i += group {
			part := ps[i:]
			if len(part) > group {
				part = part[:group]
			}
			batch(emit, fmt.Sprintf("%s %d", lo.name, i), func() {
				for _, p := range part {
					for conc := 1; conc <= 2; conc++ {
						if p.big() && conc > 1 {
							continue
						}
						// a patch that works
						inScratch(func(dir string) {
							local, out := lo.prepare(dir, p.local, p.ref)
							before := listing(dir)
							httpServer.reset(faithful(p.ref))
							run := patchFiles(summaryOf(p.ref, p.bs), local, httpServer.url(), out, conc, fileHooks{})
							after := listing(dir)
							eng.Eval(1)
							if e := run.err(); e != nil {
								eng.Failf("output %s, local file %s, reference %s, block size %d, %d matchers: %s", lo.name, show(p.local), show(p.ref), p.bs, conc, run)
								return
							}
							checkAfter(lo, p, before, after, run, "faithful server")
							eng.Outcome(fmt.Sprint(lo.name, p.name, conc, len(httpServer.requests())))
							// and again, with what it has left
							if !p.big() {
								before = after
								httpServer.reset(faithful(p.local))
								q := pair{p.name, p.ref, p.local, p.bs}
								if !lo.same {
									q.local = p.local
								}
								run = patchFiles(summaryOf(p.local, p.bs), local, httpServer.url(), out, conc, fileHooks{})
								eng.Eval(1)
								if run.err() != nil {
									eng.Failf("second patch, output %s, local file %s, reference %s, block size %d: %s", lo.name, show(q.local), show(q.ref), p.bs, run)
									return
								}
								checkAfter(lo, q, before, listing(dir), run, "second patch")
							}
						})
						// patches that fail at one request
						reqs := len(httpServer.requests())
						_ = reqs
						for k := 0; k < 3; k++ {
							failed := false
							inScratch(func(dir string) {
								local, out := lo.prepare(dir, p.local, p.ref)
								before := listing(dir)
								httpServer.reset(func(n int, a, b int64, r *http.Request) answer {
									if n == k {
										failed = true
										return answer{raw: response(500, nil)}
									}
									return faithful(p.ref)(n, a, b, r)
								})
								run := patchFiles(summaryOf(p.ref, p.bs), local, httpServer.url(), out, conc, fileHooks{})
								eng.Eval(1)
								if failed && run.err() == nil {
									eng.Failf("output %s, local file %s, reference %s, block size %d: success although request %d failed", lo.name, show(p.local), show(p.ref), p.bs, k)
								}
								checkAfter(lo, p, before, listing(dir), run, fmt.Sprintf("request %d fails", k))
								eng.Outcome(fmt.Sprint(lo.name, p.name, conc, "fail", k, failed))
							})
							if !failed {
								break
							}
						}
					}
				}
			})
		}
	}
	batch(emit, "missing local file", func() {
		for _, out := range []string{"out", "local", "./local"} {
			inScratch(func(dir string) {
				put("other", []byte("x"))
				httpServer.reset(faithful([]byte("abcd")))
				run := patchFiles(summaryOf([]byte("abcd"), 2), "local", httpServer.url(), out, 1, fileHooks{})
				if run.err() == nil {
					eng.Failf("success without a local file, output %s", out)
				}
				eng.Eval(1)
			})
		}
	})
}

// ---- crashes ----

func c21(tier string, emit func(eng.Case)) {
	var ps []pair
	long := filler(3, 45)
	ps = append(ps,
		pair{"shrink", long, long[:23], 4}, pair{"grow", long[:17], long, 4}, pair{"move", bytes.Join([][]byte{long[20:], long[:20]}, nil), long, 5},
		pair{"same", long, long, 7}, pair{"none", []byte("something else"), long, 6}, pair{"from empty", nil, long, 9}, pair{"to empty", long, nil, 4},
		pair{"one byte", []byte("abcde"), []byte("abcdx"), 2},
	)
	words("ab", 1, pick(tier, 3, 5), func(r []byte) {
		ref := append([]byte(nil), r...)
		words("ab", 1, pick(tier, 2, 5), func(l []byte) {
			ps = append(ps, pair{fmt.Sprintf("%q-%q", l, ref), append([]byte(nil), l...), ref, 2})
		})
	})
	for _, lo := range layouts() {
		if !lo.same {
			continue
		}
		sourceFaults(lo, emit)
		for _, p := range ps {
			batch(emit, fmt.Sprintf("%s %s copy", lo.name, p.name), func() { copyFaults(lo, p) })
		}
		for _, p := range ps {
			for k := -1; k < 3; k++ { // a request that fails
				batch(emit, fmt.Sprintf("%s %s fail%d", lo.name, p.name, k), func() {
					inScratch(func(dir string) {
						local, out := lo.prepare(dir, p.local, p.ref)
						_ = out
						points, bad := 0, 0
						check := func(where string) {
							points++
							cur, err := os.ReadFile(local)
							if err == nil && bytes.Equal(cur, p.local) {
								return
							}
							if k >= 0 && bad == 0 {
								// with a failing server the new content never becomes complete
								bad++
								eng.Failf("%s: the local file has %s (%v) though the patch cannot succeed", where, show(cur), err)
							}
							for _, c := range listing(dir) {
								if c == string(p.ref) {
									return
								}
							}
							if bad == 0 {
								bad++
								eng.Failf("output %s, local file %s, reference %s, block size %d, at statement %d (%s): the local file has %s (%v), and no file has the new content",
									lo.name, show(p.local), show(p.ref), p.bs, points, where, show(cur), err)
							}
						}
						failed := false
						httpServer.reset(func(n int, a, b int64, r *http.Request) answer {
							if n == k {
								failed = true
								return answer{raw: response(500, nil)}
							}
							return faithful(p.ref)(n, a, b, r)
						})
						if k >= 0 { // does that request happen at all?
							probe := 0
							inScratch(func(d2 string) {
								l2, o2 := lo.prepare(d2, p.local, p.ref)
								httpServer.reset(faithful(p.ref))
								patchFiles(summaryOf(p.ref, p.bs), l2, httpServer.url(), o2, 1, fileHooks{})
								probe = len(httpServer.requests())
							})
							if probe <= k {
								return
							}
							must(os.Chdir(dir))
							httpServer.reset(func(n int, a, b int64, r *http.Request) answer {
								if n == k {
									failed = true
									return answer{raw: response(500, nil)}
								}
								return faithful(p.ref)(n, a, b, r)
							})
						}
						vs.SetHook(func(pkg uint) {
							if pkg == 0 || pkg == 4 {
								check("package " + strconv.Itoa(int(pkg)))
							}
						})
						run := patchFiles(summaryOf(p.ref, p.bs), local, httpServer.url(), out, 1, fileHooks{
							made:    func(*gosync.RSync) { check("after MakeRSync") },
							patched: func(*gosync.RSync, error) { check("after Patch") },
						})
						vs.SetHook(nil)
						check("after Close")
						eng.Eval(int64(points))
						if k < 0 && run.err() != nil {
							eng.Failf("%s", run)
						}
						eng.Outcome(fmt.Sprint(lo.name, p.name, k, failed))
						eng.Sample("output %s, local file %s, reference %s, failing request %d: %d crash points", lo.name, show(p.local), show(p.ref), k, points)
						for i := 0; i < points; i++ {
							eng.StateS(fmt.Sprint(lo.name, p.name, k, i))
						}
					})
				})
			}
		}
	}
}

// copyFaults are patches in place whose result is complete and cannot be copied onto the local file: it has to stay.
func copyFaults(lo layout, p pair) {
	var r *gosync.RSync
	try := func(what string, fault func(real string) (undo func())) {
		r = nil
		inScratch(func(dir string) {
			local, out := lo.prepare(dir, p.local, p.ref)
			httpServer.reset(faithful(p.ref))
			bad, points, reached := false, 0, false
			var undo func()
			check := func(where string) {
				points++
				if !reached || bad {
					return
				}
				// the local file may be a device now, which never ends
				files := listing(dir)
				for _, c := range files {
					if c == string(p.ref) && what[:4] != "clos" || what[0] == 'c' && c == string(p.local) {
						return
					}
				}
				bad = true
				eng.Failf("output %s, local file %s, reference %s, block size %d, %s, %s: no file has the old or the new content, there are %s", lo.name, show(p.local), show(p.ref), p.bs, what, where, names(files))
			}
			run := patchFiles(summaryOf(p.ref, p.bs), local, httpServer.url(), out, 1, fileHooks{patched: func(rs *gosync.RSync, err error) {
				r = rs
				real, e := filepath.EvalSymlinks(out)
				must(e)
				undo = fault(real)
				reached = err == nil
				vs.SetHook(func(pkg uint) {
					if pkg == 0 {
						check("before statement " + strconv.Itoa(points))
					}
				})
			}})
			vs.SetHook(nil)
			check("after Close")
			if r != nil {
				r.Close()
				check("after a second Close")
			}
			if undo != nil {
				undo()
			}
			eng.Eval(int64(points))
			eng.Outcome(fmt.Sprint(lo.name, p.name, what, run.closeErr != nil))
			eng.StateS(fmt.Sprint(lo.name, p.name, what))
		})
	}
	try("closing the output fails", func(string) func() {
		r.Output.(io.Closer).Close()
		return nil
	})
	for n := 0; n <= len(p.ref); n++ {
		try(fmt.Sprintf("copying onto it fails after %d bytes", n), func(string) func() { return setLimit(uint64(n)) })
	}
	if len(p.ref) == 0 {
		return // nothing to lose
	}
	try("the local file is on a full device", func(real string) func() {
		must(os.Remove(real))
		must(os.Symlink("/dev/full", real))
		return nil
	})
	try("the local file is a directory", func(real string) func() {
		must(os.Remove(real))
		must(os.Mkdir(real, 0755))
		return nil
	})
	try("the local file is gone", func(real string) func() {
		must(os.Remove(real))
		return nil
	})
}

// sourceFaults are patches in place with a source or an output that is not the one of MakeRSync, and fails.
func sourceFaults(lo layout, emit func(eng.Case)) {
	long := filler(3, 45)
	for _, p := range []pair{
		{"grow", long[:17], long, 4}, {"shrink", long, long[:23], 4}, {"move", bytes.Join([][]byte{long[20:], long[:20]}, nil), long, 6},
		{"one block", []byte("abcdef"), long[:7], 8}, {"none", []byte("something else"), long, 7}, {"tail", long[:40], long[:43], 8},
	} {
		batch(emit, fmt.Sprintf("%s %s source", lo.name, p.name), func() {
			ref := p.ref
			try := func(what string, mod func(r *gosync.RSync)) {
				inScratch(func(dir string) {
					local, out := lo.prepare(dir, p.local, ref)
					httpServer.reset(faithful(ref))
					run := patchFiles(summaryOf(ref, p.bs), local, httpServer.url(), out, 1, fileHooks{made: func(r *gosync.RSync) { mod(r) }})
					eng.Eval(1)
					cur, err := os.ReadFile(local)
					switch {
					case err == nil && run.err() == nil && bytes.Equal(cur, ref):
					case err == nil && run.err() != nil && bytes.Equal(cur, p.local):
					default:
						eng.Failf("output %s, local file %s, reference %s, block size %d, %s: %s, and the local file has %s (%v)",
							lo.name, show(p.local), show(ref), p.bs, what, run, show(cur), err)
					}
					eng.Outcome(fmt.Sprint(lo.name, p.name, what))
				})
			}
			try("no fault", func(r *gosync.RSync) {})
			for k := 0; k < 12; k++ {
				for kind := sOK; kind < sKinds; kind++ {
					var src *fakeSource
					try(fmt.Sprintf("request %d: %s", k, sNames[kind]), func(r *gosync.RSync) {
						src = newFakeSource(ref, p.bs)
						src.faults[k] = kind
						r.Source = src
					})
					requests := len(src.requests)
					if kind == sOK && requests <= k {
						break
					}
				}
			}
			for l := range ref {
				try(fmt.Sprintf("a source of only %d bytes", l), func(r *gosync.RSync) {
					r.Source = blocksources.NewReadSeekerBlockSource(bytes.NewReader(ref[:l]), blocksources.MakeFileSizedBlockResolver(uint64(p.bs), int64(l)))
				})
				try(fmt.Sprintf("output fails after %d bytes", l), func(r *gosync.RSync) {
					r.Output = &teeSink{r.Output, &sink{limit: l}}
				})
			}
			for l := range p.local {
				try(fmt.Sprintf("local file cut to %d bytes for copying", l), func(r *gosync.RSync) {
					r.Input = &twoFaced{bytes.NewReader(p.local[:l]), bytes.NewReader(p.local)}
				})
			}
		})
	}
}

// teeSink writes what sink takes.
type teeSink struct {
	w io.Writer
	*sink
}

func (t *teeSink) Write(b []byte) (int, error) {
	n, err := t.sink.Write(b)
	t.w.Write(b[:n])
	return n, err
}

// ---- faults while finishing ----

func setLimit(n uint64) (restore func()) {
	var old syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: old.Max}))
	return func() { must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }
}

// fdOf finds the open descriptor for a path, for writing or for reading (-1: none).
func fdOf(path string, writing bool) int {
	want, err := filepath.EvalSymlinks(path)
	if err != nil {
		return -1
	}
	want, _ = filepath.Abs(want)
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	for _, e := range ents {
		n, err := strconv.Atoi(e.Name())
		if err != nil {
			continue
		}
		t, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err != nil || t != want {
			continue
		}
		fl, _, en := syscall.Syscall(syscall.SYS_FCNTL, uintptr(n), syscall.F_GETFL, 0)
		if en != 0 {
			continue
		}
		w := fl&syscall.O_ACCMODE != syscall.O_RDONLY
		if w == writing {
			return n
		}
	}
	return -1
}

func outName(r *gosync.RSync) string {
	if n, ok := r.Output.(interface{ Name() string }); ok {
		return n.Name()
	}
	return ""
}

func c22(tier string, emit func(eng.Case)) {
	long := filler(3, 45)
	moved := bytes.Join([][]byte{long[20:], long[:20]}, nil)
	ps := []pair{{"move", moved, long, 5}, {"shrink", long, long[:23], 4}, {"grow", long[:17], long, 4}, {"none", []byte("something else"), long[:30], 6}, {"same", long, long, 7}}
	words("ab", 1, 3, func(r []byte) {
		ref := append([]byte(nil), r...)
		words("ab", 1, pick(tier, 2, 4), func(l []byte) {
			ps = append(ps, pair{fmt.Sprintf("%q-%q", l, ref), append([]byte(nil), l...), ref, 2})
		})
	})
	one := func(lo layout, p pair, name string, mustFail bool, f func(local, out string) (fileHooks, func())) {
		inScratch(func(dir string) {
			local, out := lo.prepare(dir, p.local, p.ref)
			httpServer.reset(faithful(p.ref))
			h, undo := f(local, out)
			run := patchFiles(summaryOf(p.ref, p.bs), local, httpServer.url(), out, 1, h)
			if undo != nil {
				undo()
			}
			eng.Eval(1)
			if run.err() == nil {
				if mustFail {
					eng.Failf("output %s, local file %s, reference %s, block size %d: %s and no error is reported", lo.name, show(p.local), show(p.ref), p.bs, name)
				} else if b, err := os.ReadFile(lo.result); err != nil || !bytes.Equal(b, p.ref) {
					eng.Failf("output %s, local file %s, reference %s, block size %d: %s; success, but the output has %s (%v)", lo.name, show(p.local), show(p.ref), p.bs, name, show(b), err)
				}
			}
			eng.Outcome(fmt.Sprint(lo.name, p.name, name, run.makeErr != nil, run.patchErr != nil, run.closeErr != nil))
			eng.Sample("output %s, local file %s, reference %s: %s -> %s", lo.name, show(p.local), show(p.ref), name, run)
		})
	}
	for _, lo := range layouts() {
		for _, p := range ps {
			batch(emit, fmt.Sprintf("limit %s %s", lo.name, p.name), func() {
				// every byte, while patching and while finishing
				for n := 0; n <= len(p.ref); n++ {
					must1 := n < len(p.ref)
					one(lo, p, fmt.Sprintf("writing fails after %d bytes", n), must1, func(string, string) (fileHooks, func()) {
						var restore func()
						return fileHooks{made: func(*gosync.RSync) { restore = setLimit(uint64(n)) }}, func() {
							if restore != nil {
								restore()
							}
						}
					})
					if lo.same {
						one(lo, p, fmt.Sprintf("writing the final file fails after %d bytes", n), must1, func(string, string) (fileHooks, func()) {
							var restore func()
							return fileHooks{patched: func(*gosync.RSync, error) { restore = setLimit(uint64(n)) }}, func() {
								if restore != nil {
									restore()
								}
							}
						})
					}
				}
			})
			batch(emit, fmt.Sprintf("steps %s %s", lo.name, p.name), func() {
				one(lo, p, "the output is closed before patching", len(p.ref) > 0, func(string, string) (fileHooks, func()) {
					return fileHooks{made: func(r *gosync.RSync) { r.Output.(io.Closer).Close() }}, nil
				})
				one(lo, p, "closing the output fails", true, func(string, string) (fileHooks, func()) {
					return fileHooks{patched: func(r *gosync.RSync, err error) { r.Output.(io.Closer).Close() }}, nil
				})
				if !lo.same {
					return
				}
				one(lo, p, "the temporary file is gone", true, func(string, string) (fileHooks, func()) {
					return fileHooks{patched: func(r *gosync.RSync, err error) { must(os.Remove(outName(r))) }}, nil
				})
				one(lo, p, "the temporary file cannot be read", true, func(string, string) (fileHooks, func()) {
					return fileHooks{patched: func(r *gosync.RSync, err error) {
						must(os.Remove(outName(r)))
						must(os.Mkdir(outName(r), 0755))
					}}, nil
				})
				replace := func(out string, f func(real string)) fileHooks {
					return fileHooks{patched: func(r *gosync.RSync, err error) {
						real, err := filepath.EvalSymlinks(out)
						must(err)
						must(os.Remove(real))
						f(real)
					}}
				}
				one(lo, p, "the final file is a directory now", true, func(l, o string) (fileHooks, func()) {
					return replace(o, func(real string) { must(os.Mkdir(real, 0755)) }), nil
				})
				one(lo, p, "the final file is on a full device", true, func(l, o string) (fileHooks, func()) {
					return replace(o, func(real string) { must(os.Symlink("/dev/full", real)) }), nil
				})
				one(lo, p, "the directory of the final file is gone", false, func(l, o string) (fileHooks, func()) {
					return replace(o, func(real string) {}), nil
				})
			})
			// descriptors that break at each statement
			if p.bs != 2 || tier != "quick" {
				for _, mode := range []string{"broken", "full"} {
					batch(emit, fmt.Sprintf("descriptors %s %s %s", mode, lo.name, p.name), func() { descriptors(lo, p, mode) })
				}
			}
		}
	}
	for _, p := range ps {
		batch(emit, "full-device "+p.name, func() {
			lo := layout{"full device", false, func(dir string, local, ref []byte) (string, string) {
				put("local", local)
				must(os.Symlink("/dev/full", "out"))
				return "local", "out"
			}, "out"}
			one(lo, p, "the output is a full device", true, func(string, string) (fileHooks, func()) { return fileHooks{}, nil })
		})
		batch(emit, "no-temporary-file "+p.name, func() {
			inScratch(func(dir string) {
				put("local", p.local)
				must(os.Mkdir("gone", 0755))
				must(os.Chdir("gone"))
				must(os.Remove(filepath.Join(dir, "gone")))
				l := filepath.Join(dir, "local")
				httpServer.reset(faithful(p.ref))
				run := patchFiles(summaryOf(p.ref, p.bs), l, httpServer.url(), l, 1, fileHooks{})
				eng.Eval(1)
				if run.err() == nil {
					if b, _ := os.ReadFile(l); !bytes.Equal(b, p.ref) {
						eng.Failf("no temporary file can be created, success, but the file has %s", show(b))
					}
				} else if b, _ := os.ReadFile(l); !bytes.Equal(b, p.local) {
					eng.Failf("no temporary file can be created (%s), and the local file has %s", run, show(b))
				}
			})
		})
		batch(emit, "no-output "+p.name, func() {
			inScratch(func(dir string) {
				put("local", p.local)
				httpServer.reset(faithful(p.ref))
				for _, o := range []string{"no/such/dir/out", dir, "local/out"} {
					run := patchFiles(summaryOf(p.ref, p.bs), "local", httpServer.url(), o, 1, fileHooks{})
					eng.Eval(1)
					if run.err() == nil {
						eng.Failf("no error for the output %q", o)
					}
					if b, _ := os.ReadFile("local"); !bytes.Equal(b, p.local) {
						eng.Failf("output %q: the local file has %s", o, show(b))
					}
				}
			})
		})
	}
}

// descriptors breaks the descriptor of the output, of the final file and of the temporary file, at every statement
// at which it is open. Only files whose content is available locally are patched, so that nothing else is opened.
func descriptors(lo layout, p pair, mode string) {
	if mode == "full" && len(p.ref) == 0 {
		return
	}
	type target struct {
		name    string
		final   bool
		writing bool
		must    bool
	}
	targets := []target{{"output", false, true, true}}
	if lo.same {
		targets = append(targets, target{"final file", true, true, true}, target{"temporary file being read", false, false, false})
	}
	for _, t := range targets {
		if mode == "full" && !t.writing {
			continue // reading a full device never ends
		}
		for at := 0; ; at++ {
			hit, where := false, ""
			inScratch(func(dir string) {
				local, out := lo.prepare(dir, p.local, p.ref)
				full, err := syscall.Open("/dev/full", syscall.O_RDWR|syscall.O_CLOEXEC, 0)
				must(err)
				n := 0
				var r0 *gosync.RSync
				httpServer.reset(faithful(p.ref))
				written := func() bool { return false }
				hook := func(pkg uint) {
					if hit || pkg != 0 || r0 == nil {
						return
					}
					path := outName(r0)
					if t.final {
						path = out
					}
					fd := fdOf(path, t.writing)
					if fd < 0 {
						return
					}
					if n++; n <= at {
						return
					}
					// with a full device, nothing may be left to write
					hit = true
					where = fmt.Sprintf("statement %d with the %s open", at, t.name)
					if mode == "full" {
						if b, err := os.ReadFile(path); err == nil && bytes.Equal(b, p.ref) {
							written = func() bool { return true }
						}
						must(syscall.Dup3(full, fd, syscall.O_CLOEXEC))
					} else {
						must(syscall.Close(fd))
					}
				}
				run := patchFiles(summaryOf(p.ref, p.bs), local, httpServer.url(), out, 1, fileHooks{made: func(r *gosync.RSync) {
					r0 = r
					vs.SetHook(hook)
				}})
				vs.SetHook(nil)
				syscall.Close(full)
				eng.Eval(1)
				if !hit {
					return
				}
				if len(httpServer.requests()) > 0 {
					return // other descriptors were opened
				}
				eng.Outcome(fmt.Sprint(lo.name, p.name, mode, t.name, at, run.patchErr != nil, run.closeErr != nil))
				if run.err() != nil {
					return
				}
				if t.must && !written() {
					eng.Failf("output %s, local file %s, reference %s, block size %d: the descriptor of the %s is %s at %s, and no error is reported", lo.name, show(p.local), show(p.ref), p.bs, t.name, mode, where)
				} else if b, err := os.ReadFile(lo.result); err != nil || !bytes.Equal(b, p.ref) {
					eng.Failf("output %s, local file %s, reference %s, block size %d: the descriptor of the %s is %s at %s, success, and the output has %s (%v)", lo.name, show(p.local), show(p.ref), p.bs, t.name, mode, where, show(b), err)
				}
			})
			if !hit || at > 400 {
				break
			}
		}
	}
}

// ---- servers that lie or break, with real files ----

func c25(tier string, emit func(eng.Case)) {
	c25large(tier, emit)
	long := filler(3, 41)
	alt := filler(4, 41)
	ps := []pair{
		{"nothing", []byte("zzzz"), long[:22], 4}, {"half", bytes.Join([][]byte{long[8:16], alt[:9]}, nil), long[:22], 4},
		{"tail", long[10:22], long[:22], 5}, {"front", append([]byte("?"), long[:15]...), long, 7}, {"repeats", []byte("x"), []byte("abababababab"), 2},
		{"zeros", nil, make([]byte, 20), 4}, {"one", nil, []byte("q"), 3},
	}
	if tier != "quick" {
		ps = append(ps, pair{"alternate", bytes.Join([][]byte{long[0:3], []byte("#"), long[6:9], []byte("#"), long[12:15]}, nil), long[:20], 3},
			pair{"more", alt, long, 2}, pair{"single", bytes.Join([][]byte{long[:9], long[12:]}, nil), long, 3})
	}
	outs := []layout{}
	for _, l := range layouts() {
		if l.name == "absent" || l.name == "longer" || l.name == "same name" {
			outs = append(outs, l)
		}
	}
	for _, p := range ps {
		for _, lo := range outs {
			for _, conc := range pick(tier, []int{1, 2}, []int{1, 2, 3}) {
				run := func(name string, k int, f func(data []byte, a, b int64) answer) bool {
					reached := false
					inScratch(func(dir string) {
						local, out := lo.prepare(dir, p.local, p.ref)
						before := listing(dir)
						httpServer.reset(func(n int, a, b int64, r *http.Request) answer {
							if n == k || k < 0 {
								reached = true
								return f(cut(p.ref, a, b), a, b)
							}
							return faithful(p.ref)(n, a, b, r)
						})
						r := patchFiles(summaryOf(p.ref, p.bs), local, httpServer.url(), out, conc, fileHooks{})
						eng.Eval(1)
						after := listing(dir)
						eng.Outcome(fmt.Sprint(p.name, lo.name, conc, k, name, r.err() != nil))
						if r.err() == nil && after[lo.result] != string(p.ref) {
							eng.Failf("%s at request %d, output %s, local file %s, reference %s, block size %d, %d transfers: success, but the output has %s", name, k, lo.name, show(p.local), show(p.ref), p.bs, conc, show([]byte(after[lo.result])))
						}
						if r.err() != nil && after["local"] != before["local"] {
							eng.Failf("%s at request %d, output %s, local file %s, reference %s: error (%s), and the local file has %s", name, k, lo.name, show(p.local), show(p.ref), r, show([]byte(after["local"])))
						}
					})
					return reached
				}
				key := fmt.Sprintf("%s %s conc%d", p.name, lo.name, conc)
				for k := -1; k < 4; k++ {
					batch(emit, fmt.Sprintf("%s content at %d", key, k), func() {
						// content of the right length
						for o := 0; o < len(p.ref); o++ {
							for _, x := range []byte{1, 0x80, 0xff} {
								if !run(fmt.Sprintf("byte %d ^%#x", o, x), k, func(d []byte, a, b int64) answer {
									e := append([]byte(nil), d...)
									if o < len(e) {
										e[o] ^= x
									}
									return answer{raw: response(206, e)}
								}) {
									return
								}
							}
						}
						for s := -len(p.ref); s <= len(p.ref); s++ {
							run(fmt.Sprintf("bytes from %d further on", s), k, func(d []byte, a, b int64) answer {
								e := make([]byte, len(d))
								for i := range e {
									if j := int(a) + i + s; j >= 0 && j < len(p.ref) {
										e[i] = p.ref[j]
									}
								}
								return answer{raw: response(206, e)}
							})
						}
						for i := 0; i < len(p.ref); i++ {
							for j := i + 1; j < len(p.ref); j++ {
								if !run(fmt.Sprintf("bytes %d and %d exchanged", i, j), k, func(d []byte, a, b int64) answer {
									e := append([]byte(nil), d...)
									if j < len(e) {
										e[i], e[j] = e[j], e[i]
									}
									return answer{raw: response(206, e)}
								}) {
									return
								}
								if tier == "quick" && j > i+3 {
									j += 4
								}
							}
						}
						run("local content", k, func(d []byte, a, b int64) answer {
							return answer{raw: response(206, cut(append(append([]byte(nil), p.local...), make([]byte, 100)...), a, b))}
						})
						for _, v := range []byte{0, 1, 0xff} {
							run(fmt.Sprintf("all %#x", v), k, func(d []byte, a, b int64) answer { return answer{raw: response(206, bytes.Repeat([]byte{v}, len(d)))} })
						}
						// whole blocks exchanged, repeated, left out
						nb := nblocks(len(p.ref), p.bs)
						for i := 0; i < nb; i++ {
							for j := 0; j < nb; j++ {
								run(fmt.Sprintf("block %d in place of %d", i, j), k, func(d []byte, a, b int64) answer {
									e := append([]byte(nil), p.ref...)
									copy(e[j*p.bs:], blockOf(p.ref, p.bs, i))
									return answer{raw: response(206, cut(e, a, b))}
								})
							}
						}
					})
					batch(emit, fmt.Sprintf("%s transport at %d", key, k), func() {
						d0 := make([]byte, p.bs)
						var kinds []string
						badAnswers(d0, p.ref, tier, func(name string, a answer) { kinds = append(kinds, name) })
						for i, name := range kinds {
							if tier == "quick" && strings.HasPrefix(name, "status") && i%7 != 0 {
								continue
							}
							// the same kind for what is asked
							if !run(name, k, func(d []byte, a, b int64) answer {
								var r answer
								r.raw = response(500, nil)
								j := 0
								badAnswers(d, p.ref, tier, func(n string, x answer) {
									if n == name || j == i {
										r = x
									}
									j++
								})
								return r
							}) {
								return
							}
						}
						// shortened or extended by some bytes, with every length
						for l := 0; l <= len(p.ref)+2*p.bs; l++ {
							run(fmt.Sprintf("%d bytes", l), k, func(d []byte, a, b int64) answer {
								e := append(append([]byte(nil), p.ref[a:]...), bytes.Repeat([]byte{'+'}, 100)...)
								return answer{raw: response(206, e[:l])}
							})
						}
					})
				}
			}
		}
	}
}

// c25large has large blocks, many blocks, many requests: contents that are wrong at one place, or have another length.
func c25large(tier string, emit func(eng.Case)) {
	alternate := func(n, bs int) pair { // every second block is missing
		ref := filler(21, n*bs-1)
		var local []byte
		for b := 1; b < n-1; b += 2 {
			local = append(append(local, ref[b*bs:(b+1)*bs]...), '#')
		}
		return pair{fmt.Sprintf("alternate-%dx%d", n, bs), local, ref, bs}
	}
	whole := func(n, bs int) pair {
		return pair{fmt.Sprintf("whole-%dx%d", n, bs), []byte("local"), filler(22, n*bs-bs/3), bs}
	}
	ps := []pair{whole(200, 8192), whole(3, 70000), whole(2, 1<<20+1), whole(1, 1<<22), whole(66000, 3), alternate(520, 7), alternate(20, 70000)}
	if tier != "quick" {
		ps = append(ps, whole(1, 3<<24), whole(3000, 8192), alternate(3000, 100), alternate(40, 1<<20))
	}
	for _, p := range ps {
		for _, lo := range layouts() {
			if lo.name != "absent" && lo.name != "same name" {
				continue
			}
			batch(emit, p.name+" "+lo.name, func() {
				nb, n := nblocks(len(p.ref), p.bs), len(p.ref)
				lastStart := (nb - 1) * p.bs
				try := func(name string, content func(a, b int64) []byte) {
					inScratch(func(dir string) {
						local, out := lo.prepare(dir, p.local, p.ref)
						httpServer.reset(func(_ int, a, b int64, r *http.Request) answer {
							return answer{raw: response(206, content(a, b))}
						})
						r := patchFiles(summaryOf(p.ref, p.bs), local, httpServer.url(), out, 2, fileHooks{})
						eng.Eval(1)
						eng.Outcome(fmt.Sprint(p.name, lo.name, name, r.err() != nil))
						data, _ := os.ReadFile(filepath.Join(dir, lo.result))
						switch {
						case r.err() == nil && !bytes.Equal(data, p.ref):
							eng.Failf("%s, output %s, the server sends %s: success with other content", p.name, lo.name, name)
						case r.err() != nil && name == "the reference":
							eng.Failf("%s, output %s: %s", p.name, lo.name, r)
						case r.err() != nil && lo.same && !bytes.Equal(data, p.local):
							eng.Failf("%s, output %s, the server sends %s: error (%s), and the local file was changed", p.name, lo.name, name, r)
						}
					})
				}
				try("the reference", func(a, b int64) []byte { return p.ref[a:b] })
				for _, o := range []int{0, p.bs - 1, min(255*p.bs, n-1) / (2 * p.bs) * 2 * p.bs, nb / 2 / 2 * 2 * p.bs, lastStart - p.bs, lastStart, lastStart + (n-lastStart)/2, n - 1} {
					if o >= 0 && o < n {
						try(fmt.Sprintf("another byte %d", o), func(a, b int64) []byte {
							e := append([]byte(nil), p.ref[a:b]...)
							if i := o - int(a); i >= 0 && i < len(e) {
								e[i] ^= 0x10
							}
							return e
						})
					}
				}
				try("a byte too few", func(a, b int64) []byte { return p.ref[a : b-1] })
				try("a byte too much", func(a, b int64) []byte { return append(append([]byte(nil), p.ref[a:b]...), '+') })
				try("a block too much", func(a, b int64) []byte {
					return append(append([]byte(nil), p.ref[a:b]...), make([]byte, p.bs)...)
				})
				try("zeros", func(a, b int64) []byte { return make([]byte, b-a) })
			})
		}
	}
}

func init() {
	eng.Register(&eng.Prop{ID: "C20", Gen: c20, Setup: setupFiles,
		Rule: "input: local file, reference, block size, what the output is before, request that fails; real files in a scratch directory; distinct: by these",
		Bounds: func(tier string) string {
			return fmt.Sprintf("15 kinds of output; all pairs of files of up to %d letters of ab and 75 longer ones; no failure, or one at request 0-2; each patch followed by a second one", pick(tier, 3, 5))
		},
		Assume: []string{"the file system works (C22 is about failures)"}})
	eng.Register(&eng.Prop{ID: "C21", Gen: c21, Setup: setupFiles, Sched: true,
		Rule: "input: local file, reference, block size, kind of name of the output, request that fails; crash point: every statement of the patching code; distinct: by input and crash point",
		Bounds: func(tier string) string {
			return fmt.Sprintf("8 pairs of files and all pairs of words of up to %d letters; a crash before every statement of rsync.go and sequential.go and between the steps; also with failing sources, outputs and inputs; the copy onto the local file failing at every byte and in 5 other ways", pick(tier, 3, 5))
		},
		Assume: []string{"a crash loses nothing that was written (of the process, not of the machine)", "states inside of one call of the standard library are not crash points"}})
	eng.Register(&eng.Prop{ID: "C22", Gen: c22, Setup: setupFiles,
		Rule: "input: local file, reference, block size, kind of output, step that fails and at which byte or statement; distinct: by these and the kind of result",
		Bounds: func(tier string) string {
			return "writing fails after every byte (limit on the file size), full device, output closed, temporary or final file removed or replaced, every descriptor broken or on a full device at every statement, no temporary file"
		},
		Assume: []string{"errors that the file system of the sandbox cannot produce are replaced by broken descriptors"}})
	eng.Register(&eng.Prop{ID: "C25", Gen: c25, Setup: setupFiles,
		Rule: "input: local file, reference, block size, output, number of transfers, request that is answered wrongly (or all) and how; distinct: by these and whether an error was reported",
		Bounds: func(tier string) string {
			return pick(tier, "7", "10") + " pairs of files; one request (0-3) or all of them answered with changed, shifted, exchanged or other content, every length, or any of the broken answers of C12; blocks of up to 4 (thorough 48) MB, 66000 blocks, 260 (1500) requests with content that is wrong at one of 8 places or has another length"
		},
		Assume: []string{"MD5 does not collide", "a server that never answers is not covered"}})
}
