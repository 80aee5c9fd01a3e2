package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verif/mc/eng"
)

// ---- where an index comes from, and in which pieces ----

// unread is the number of bytes in a pipe.
func unread(f *os.File) int {
	var n int32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), 0x541B, uintptr(unsafe.Pointer(&n))); e != 0 {
		panic("harness: FIONREAD: " + e.Error())
	}
	return int(n)
}

// gosyncPipe runs the command with the pieces coming through the pipe /dev/fd/3; each one is written when the
// command has read everything before.
func gosyncPipe(pieces [][]byte, args ...string) *cliRun {
	r, w, err := os.Pipe()
	must(err)
	syscall.SetNonblock(int(w.Fd()), true)
	c := exec.Command(os.Getenv("MC_GOSYNC"), args...)
	var o, e bytes.Buffer
	c.Stdout, c.Stderr, c.ExtraFiles = &o, &e, []*os.File{r}
	must(c.Start())
	timer := time.AfterFunc(100*time.Second, func() { c.Process.Kill() })
	done := make(chan bool)
	go func() {
		defer close(done)
		defer w.Close()
		for _, p := range pieces {
			for unread(w) > 0 {
				time.Sleep(50 * time.Microsecond)
				// nobody reads any more: the pipe has the only other end
				if syscall.Kill(c.Process.Pid, 0) != nil || zombie(c.Process.Pid) {
					return
				}
			}
			if _, err := w.Write(p); err != nil {
				return
			}
		}
	}()
	c.Wait()
	hang := !timer.Stop()
	r.Close()
	<-done
	return &cliRun{out: o.String(), err: e.String(), code: c.ProcessState.ExitCode(), hang: hang}
}

func zombie(pid int) bool {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	return err != nil || bytes.Contains(b, []byte(") Z"))
}

var missingRe = regexp.MustCompile(`Index blocks: *([0-9]+)`)

type indexRun struct {
	what string
	run  func(args ...string) *cliRun // "INDEX" stands for the index
	name string
	// what must happen
	works bool
}

// checkIndexRun patches and diffs with an index that comes in some way.
func checkIndexRun(ref []byte, bs int, x indexRun, diff bool) {
	local := append(append([]byte(nil), ref[len(ref)/2:]...), "local"...)
	for _, mode := range []string{"absent", "in place", "existing"} {
		if mode != "absent" && x.works && mode != "in place" {
			continue
		}
		inScratch(func(dir string) {
			put("local", local)
			args := []string{"patch", "local", x.name, httpServer.url()}
			res := "local"
			if mode != "in place" {
				args, res = append(args, "out"), "out"
			}
			if mode == "existing" {
				put("out", []byte("an existing output"))
			}
			before := listing(dir)
			r := x.run(args...)
			eng.Eval(1)
			after := listing(dir)
			eng.Outcome(fmt.Sprint(x.what, mode, len(ref), r.code))
			what := fmt.Sprintf("%s, reference of %d bytes in blocks of %d, output %s", x.what, len(ref), bs, mode)
			switch {
			case r.hang:
				eng.Failf("%s: no end", what)
				return
			case r.crashed():
				eng.Failf("%s: crash: %s", what, r)
				return
			case x.works && (r.code != 0 || after[res] != string(ref)):
				eng.Failf("%s: %s, the output has %s", what, r, show([]byte(after[res])))
				return
			case !x.works && r.code == 0:
				eng.Failf("%s: success", what)
				return
			}
			for n, c := range after {
				if n != res && before[n] != c || !x.works && before[n] != c {
					eng.Failf("%s: %s: changes %s to %s", what, r, n, show([]byte(c)))
				}
			}
			if len(after) != len(before) && !(mode == "absent" && x.works && len(after) == len(before)+1) {
				eng.Failf("%s: %s: leaves %d files instead of %d", what, r, len(after), len(before))
			}
		})
	}
	if !diff || !x.works {
		return
	}
	inScratch(func(dir string) {
		put("local", ref)
		put("ref.gosync", indexFile(ref, bs))
		plain := gosyncCmd("diff", "local", "ref.gosync")
		r := x.run("diff", "local", x.name)
		eng.Eval(1)
		get := func(r *cliRun) string {
			return fmt.Sprint(matchedRe.FindStringSubmatch(r.out), missingRe.FindStringSubmatch(r.out), r.code)
		}
		if r.hang || r.crashed() || get(r) != get(plain) {
			eng.Failf("diff, %s: %s, reports %s instead of %s", x.what, r, get(r), get(plain))
		}
	})
}

// pieces cuts b at the given places.
func pieces(b []byte, at ...int) (p [][]byte) {
	from := 0
	for _, a := range at {
		p = append(p, b[from:a])
		from = a
	}
	return append(p, b[from:])
}

func c31(tier string, emit func(eng.Case)) {
	type ref struct {
		f  []byte
		bs int
	}
	refs := []ref{{filler(22, 22), 4}, {filler(3, 9), 3}, {nil, 4}, {filler(5, 1), 2}}
	if tier != "quick" {
		refs = append(refs, ref{filler(9, 9), 1}, ref{filler(40, 400), 16})
	}
	group := func(key string, n, step int, f func(i int)) {
		for lo := 0; lo < n; lo += step {
			batch(emit, fmt.Sprintf("%s %d", key, lo), func() {
				for i := lo; i < n && i < lo+step; i++ {
					f(i)
				}
			})
		}
	}
	// an index of more than a megabyte
	large := ref{filler(77, 60000*4+1), 4}
	lix := indexFile(large.f, large.bs)
	biggest := func(key, what, name string, works bool, run func(args ...string) *cliRun) {
		batch(emit, "large "+key, func() {
			checkIndexRun(large.f, large.bs, indexRun{what: fmt.Sprintf("index of %d bytes, %s", len(lix), what), works: works, name: name, run: run}, key == "pipe")
		})
	}
	biggest("file", "a file", "../large.gosync", true, func(args ...string) *cliRun {
		httpServer.reset(faithful(large.f))
		must(os.WriteFile("../large.gosync", lix, 0644))
		defer os.Remove("../large.gosync")
		return gosyncCmd(args...)
	})
	biggest("pipe", "a pipe", "/dev/fd/3", true, func(args ...string) *cliRun {
		httpServer.reset(faithful(large.f))
		return gosyncPipe(pieces(lix, 1000, 65536, 65537, 1<<20, 1<<20+1), args...)
	})
	for i, a := range []answer{{raw: response(200, lix)}, {raw: unbounded(200, lix)}, {raw: chunked(200, lix, 70000, true)}} {
		biggest(fmt.Sprintf("address %d", i), fmt.Sprintf("by URL %d", i), "URL", true, func(args ...string) *cliRun {
			good := faithful(large.f)
			httpServer.reset(func(n int, lo, hi int64, r *http.Request) answer {
				if strings.HasPrefix(r.URL.RequestURI(), "/index.gosync") {
					return a
				}
				return good(n, lo, hi, r)
			})
			for k := range args {
				if args[k] == "URL" {
					args[k] = strings.Replace(httpServer.url(), "/the/file", "/index.gosync", 1)
				}
			}
			return gosyncCmd(args...)
		})
	}
	for _, at := range []int{1 << 20, 1<<20 - 1, 24 + 20*52428, 24 + 20*32768, 24 + 20*60000, len(lix) - 1} {
		for i, f := range []func() answer{func() answer { return answer{raw: response(200, lix[:at])} }, func() answer { return answer{raw: claims(200, len(lix), lix[:at])} }, func() answer { return answer{raw: chunked(200, lix[:at], 4096, false)} }} {
			biggest(fmt.Sprintf("cut %d %d", at, i), fmt.Sprintf("by URL, cut at byte %d", at), "URL", false, func(args ...string) *cliRun {
				httpServer.reset(func(n int, lo, hi int64, r *http.Request) answer {
					if strings.HasPrefix(r.URL.RequestURI(), "/index.gosync") {
						return f()
					}
					return faithful(large.f)(n, lo, hi, r)
				})
				for k := range args {
					if args[k] == "URL" {
						args[k] = strings.Replace(httpServer.url(), "/the/file", "/index.gosync", 1)
					}
				}
				return gosyncCmd(args...)
			})
		}
	}
	for k, x := range refs {
		ix := indexFile(x.f, x.bs)
		name := fmt.Sprintf("ref%d", k)
		// pipes
		piped := func(what string, works bool, p [][]byte, diff bool) {
			checkIndexRun(x.f, x.bs, indexRun{what: "index from a pipe, " + what, works: works, name: "/dev/fd/3",
				run: func(args ...string) *cliRun {
					httpServer.reset(faithful(x.f))
					return gosyncPipe(p, args...)
				}}, diff)
		}
		group("pipe "+name, len(ix)+1, 4, func(i int) {
			if i == 0 {
				var all []int
				for j := 1; j < len(ix); j++ {
					all = append(all, j)
				}
				piped("byte by byte", true, pieces(ix, all...), true)
				return
			}
			piped(fmt.Sprintf("two pieces, the first of %d bytes", i), true, pieces(ix, i), i < 40 || tier != "quick")
			piped(fmt.Sprintf("cut at byte %d", i-1), false, pieces(ix[:i-1]), false)
			if tier != "quick" || i < 7 {
				for j := i + 1; j < len(ix) && (j < 30 || k > 0 && k < 5 && tier != "quick"); j++ {
					if tier == "quick" && j > 8 {
						break
					}
					piped(fmt.Sprintf("three pieces, cut at bytes %d and %d", i, j), true, pieces(ix, i, j), false)
				}
			}
		})
		// addresses
		fetched := func(what string, works bool, a func() answer) {
			checkIndexRun(x.f, x.bs, indexRun{what: "index by URL, " + what, works: works, name: strings.Replace(httpServer.url(), "/the/file", "/index.gosync", 1),
				run: func(args ...string) *cliRun {
					good := faithful(x.f)
					httpServer.reset(func(n int, lo, hi int64, r *http.Request) answer {
						if strings.HasPrefix(r.URL.RequestURI(), "/index.gosync") {
							return a()
						}
						return good(n, lo, hi, r)
					})
					return gosyncCmd(args...)
				}}, false)
		}
		group("address "+name, len(ix)+1, 4, func(i int) {
			if i == 0 {
				fetched("at once", true, func() answer { return answer{raw: response(200, ix)} })
				fetched("until the end of the connection", true, func() answer { return answer{raw: unbounded(200, ix)} })
				for n := 1; n < 8; n++ {
					fetched(fmt.Sprintf("chunks of %d", n), true, func() answer { return answer{raw: chunked(200, ix, n, true)} })
				}
				for _, code := range []int{301, 302, 303, 307, 308} {
					asked := 0
					fetched(fmt.Sprintf("redirected with status %d", code), true, func() answer {
						if asked++; asked%2 == 1 {
							return answer{raw: response(code, nil, "Location: /index.gosync?elsewhere")}
						}
						return answer{raw: response(200, ix)}
					})
				}
				fetched("with another content type", true, func() answer { return answer{raw: response(200, ix, "Content-Type: text/plain")} })
				return
			}
			i--
			fetched(fmt.Sprintf("a pause after byte %d", i), true, func() answer {
				h := response(200, ix)
				return answer{raw: h[:len(h)-len(ix)+i], rest: h[len(h)-len(ix)+i:]}
			})
			fetched(fmt.Sprintf("announced, and cut at byte %d", i), false, func() answer { return answer{raw: claims(200, len(ix), ix[:i])} })
			fetched(fmt.Sprintf("announced, and reset at byte %d", i), false, func() answer { return answer{raw: claims(200, len(ix), ix[:i]), reset: true} })
			fetched(fmt.Sprintf("cut at byte %d", i), false, func() answer { return answer{raw: response(200, ix[:i])} })
			fetched(fmt.Sprintf("chunks, the connection ends at byte %d", i), false, func() answer { return answer{raw: chunked(200, ix[:i], 5, false)} })
			fetched(fmt.Sprintf("connection ends at byte %d", i), false, func() answer { return answer{raw: unbounded(200, ix[:i])} })
		})
		codes := []int{300, 301, 302, 303, 304, 305, 307, 308, 399, 400, 401, 403, 404, 405, 410, 416, 429, 500, 501, 502, 503, 504, 599}
		if tier != "quick" {
			codes = nil
			for c := 300; c < 600; c++ {
				codes = append(codes, c)
			}
		}
		group("status "+name, len(codes), 4, func(i int) {
			fetched(fmt.Sprintf("status %d", codes[i]), false, func() answer { return answer{raw: response(codes[i], ix)} })
			fetched(fmt.Sprintf("status %d, no body", codes[i]), false, func() answer { return answer{raw: response(codes[i], nil)} })
		})
		batch(emit, "no server "+name, func() {
			fetched("nothing", false, func() answer { return answer{} })
			fetched("reset", false, func() answer { return answer{reset: true} })
			fetched("no HTTP", false, func() answer { return answer{raw: ix} })
			for _, n := range []string{"http://127.0.0.1:1/x", "http://", "http:///x", "https://127.0.0.1:1/x", httpServer.url()[:len("http://127")] + ".0.0.1:2/x"} {
				checkIndexRun(x.f, x.bs, indexRun{what: "index " + n, name: n, run: func(args ...string) *cliRun {
					httpServer.reset(faithful(x.f))
					return gosyncCmd(args...)
				}}, false)
			}
		})
		// names that look like addresses
		names := []string{"a:b.gosync", "c:\\ref.gosync", "%zz", "ftp:x", "file.gosync?x=1", "a b#c", "httpx:y", "ref", "d/ref.gosync", "./http:", "é.gosync", "0:0", "http:x.gosync", "https:x.gosync", "http:", "http:/x", "http:x/y", "http", "https", "http%3A", ":x", "-", "ftp://h/x.gosync", "file:///x.gosync", "httpx://h/x"}
		group("name "+name, len(names), 3, func(i int) {
			checkIndexRun(x.f, x.bs, indexRun{what: fmt.Sprintf("index with the name %q", names[i]), works: true, name: names[i], run: func(args ...string) *cliRun {
				httpServer.reset(faithful(x.f))
				os.MkdirAll(filepath.Dir("../index/"+names[i]), 0755)
				must(os.WriteFile("../index/"+names[i], ix, 0644))
				defer os.RemoveAll("../index")
				// the folder of the index is the current one; the other names are given with their folder
				wd, err := os.Getwd()
				must(err)
				a := append([]string(nil), args...)
				for k := range a {
					if k > 0 && a[k] != names[i] && !strings.Contains(a[k], "//") && args[0] != "diff" || k == 1 {
						a[k] = wd + "/" + a[k]
					}
				}
				must(os.Chdir("../index"))
				defer os.Chdir(wd)
				return gosyncCmd(a...)
			}}, true)
		})
		// versions
		vs := []uint16{0, 1, 2, 3, 9, 255, 256, 65535}
		group("version "+name, len(vs)*len(vs), 8, func(i int) {
			b := append([]byte(nil), ix...)
			binary.LittleEndian.PutUint16(b[8:], vs[i/len(vs)])
			binary.LittleEndian.PutUint16(b[10:], vs[i%len(vs)])
			checkIndexRun(x.f, x.bs, indexRun{what: fmt.Sprintf("index version 0.%d.%d", vs[i/len(vs)], vs[i%len(vs)]), works: true, name: "../v.gosync", run: func(args ...string) *cliRun {
				httpServer.reset(faithful(x.f))
				must(os.WriteFile("../v.gosync", b, 0644))
				defer os.Remove("../v.gosync")
				return gosyncCmd(args...)
			}}, true)
		})
	}
}

func init() {
	eng.Register(&eng.Prop{ID: "C31", Gen: c31, Setup: setupCLI,
		Rule: "input: index, where it comes from, the pieces it arrives in, where it ends, its name, its version; the command is run as a process; distinct: by these, the output and the exit status",
		Bounds: func(tier string) string {
			return pick(tier, "4", "6") + " indexes of 24 to 524 bytes through a pipe in two pieces (every place), three pieces, single bytes, cut at every byte; over HTTP with a pause at, cut at and reset at every byte in four framings, " + pick(tier, "23", "300") + " statuses, redirections; 25 names; 64 versions; an index of 1.2 MB, whole and cut"
		},
		Assume: []string{"net/http is right"}})
}
