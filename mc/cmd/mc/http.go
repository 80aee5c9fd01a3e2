package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"fmt"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/patcher"
	"verif/mc/eng"
	"verif/mc/vs"
)

// ---- a scripted HTTP server on the loopback interface ----

// It reads one request per connection, sends whatever the script says, and closes the connection.

type seenReq struct {
	method, path, rng, enc string
	rngs                   int
}

// answer is what the server sends: raw bytes, then the end of the connection.
type answer struct {
	raw   []byte
	reset bool   // end with a reset
	rest  []byte // sent a moment later
}

type server struct {
	l    net.Listener
	mu   sync.Mutex
	seen []seenReq
	// answer to request number k for bytes [a, b)
	script func(k int, a, b int64, r *http.Request) answer
}

func newServer() *server {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &server{l: l}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go s.serve(c)
		}
	}()
	return s
}

func (s *server) url() string { return "http://" + s.l.Addr().String() + "/the/file?v=1" }

func (s *server) reset(f func(k int, a, b int64, r *http.Request) answer) {
	s.mu.Lock()
	s.seen = nil
	s.script = f
	s.mu.Unlock()
}

func (s *server) requests() []seenReq {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]seenReq(nil), s.seen...)
}

// parseRange reads "bytes=a-b". Half-open result; ok is false for everything else.
func parseRange(h string) (a, b int64, ok bool) {
	var z int64
	if n, err := fmt.Sscanf(h, "bytes=%d-%d", &a, &z); n != 2 || err != nil || fmt.Sprintf("bytes=%d-%d", a, z) != h {
		return 0, 0, false
	}
	return a, z + 1, true
}

func (s *server) serve(c net.Conn) {
	defer c.Close()
	c.SetDeadline(time.Now().Add(60 * time.Second))
	r, err := http.ReadRequest(bufio.NewReader(c))
	if err != nil {
		return
	}
	s.mu.Lock()
	k := len(s.seen)
	s.seen = append(s.seen, seenReq{r.Method, r.URL.RequestURI(), r.Header.Get("Range"), r.Header.Get("Accept-Encoding"), len(r.Header["Range"])})
	f := s.script
	s.mu.Unlock()
	a, b, _ := parseRange(r.Header.Get("Range"))
	ans := f(k, a, b, r)
	c.Write(ans.raw)
	if ans.rest != nil {
		time.Sleep(2 * time.Millisecond)
		c.Write(ans.rest)
	}
	if ans.reset {
		c.(*net.TCPConn).SetLinger(0)
	}
}

// response builds a response with a length.
func response(code int, body []byte, headers ...string) []byte {
	var w bytes.Buffer
	fmt.Fprintf(&w, "HTTP/1.1 %d %s\r\nConnection: close\r\nContent-Length: %d\r\n", code, http.StatusText(code), len(body))
	for _, h := range headers {
		w.WriteString(h + "\r\n")
	}
	w.WriteString("\r\n")
	w.Write(body)
	return w.Bytes()
}

// claims is a response that announces n bytes.
func claims(code int, n int, body []byte) []byte {
	return append([]byte(fmt.Sprintf("HTTP/1.1 %d X\r\nConnection: close\r\nContent-Length: %d\r\n\r\n", code, n)), body...)
}

// unbounded is a response without a length, which ends with the connection.
func unbounded(code int, body []byte) []byte {
	return append([]byte(fmt.Sprintf("HTTP/1.1 %d X\r\nConnection: close\r\n\r\n", code)), body...)
}

// chunked is a response in pieces of n bytes; end says whether the final piece is sent.
func chunked(code int, body []byte, n int, end bool) []byte {
	var w bytes.Buffer
	fmt.Fprintf(&w, "HTTP/1.1 %d X\r\nConnection: close\r\nTransfer-Encoding: chunked\r\n\r\n", code)
	for len(body) > 0 {
		k := n
		if k > len(body) {
			k = len(body)
		}
		fmt.Fprintf(&w, "%x\r\n%s\r\n", k, body[:k])
		body = body[k:]
	}
	if end {
		w.WriteString("0\r\n\r\n")
	}
	return w.Bytes()
}

func gzipped(b []byte) []byte {
	var w bytes.Buffer
	z := gzip.NewWriter(&w)
	z.Write(b)
	z.Close()
	return w.Bytes()
}

func cut(f []byte, a, b int64) []byte {
	n := int64(len(f))
	if a > n {
		a = n
	}
	if b > n {
		b = n
	}
	if a > b {
		a = b
	}
	return f[a:b:b]
}

// bad lists answers that must be reported as an error for a request of data.
func badAnswers(data, file []byte, tier string, f func(name string, a answer)) {
	n := len(data)
	for code := 200; code < 600; code++ {
		if code == 206 {
			continue
		}
		if code == 204 || code == 304 || code == 205 {
			f(fmt.Sprintf("status%d", code), answer{raw: response(code, nil)})
			continue
		}
		if code == 301 || code == 302 || code == 303 || code == 307 || code == 308 {
			f(fmt.Sprintf("status%d without location", code), answer{raw: response(code, data)})
			continue
		}
		f(fmt.Sprintf("status%d", code), answer{raw: response(code, data)})
	}
	// headers that make an answer look better than it is
	for _, h := range []string{
		"Accept-Ranges: bytes",
		fmt.Sprintf("Content-Range: bytes 0-%d/%d", n-1, len(file)),
		fmt.Sprintf("Content-Range: bytes 0-%d/%d\r\nAccept-Ranges: bytes\r\nContent-Type: application/octet-stream\r\nETag: \"x\"\r\nLast-Modified: Mon, 02 Jan 2006 15:04:05 GMT", n-1, len(file)),
		"Content-Encoding: identity",
		"Content-Type: multipart/byteranges; boundary=X",
		"Warning: 110 - \"stale\"\r\nAge: 10",
		"Transfer-Status: 206",
	} {
		for _, code := range []int{200, 201, 202, 203, 207, 208, 226, 300, 400, 403, 404, 410, 416, 429, 500, 502, 503, 504} {
			f(fmt.Sprintf("status%d with %q", code, h), answer{raw: response(code, data, h)})
		}
		f(fmt.Sprintf("too short with %q", h), answer{raw: response(206, data[:n-1], h)})
		f(fmt.Sprintf("too long with %q", h), answer{raw: response(206, append(append([]byte(nil), data...), '!'), h)})
		f(fmt.Sprintf("gzip with %q", h), answer{raw: response(206, data, h, "Content-Encoding: gzip")})
	}
	f("status200 whole file", answer{raw: response(200, file)})
	f("status999", answer{raw: response(999, data)})
	for _, l := range lengths(n) {
		b := bytes.Repeat(append(append([]byte(nil), data...), '!'), l/(n+1)+1)[:l]
		f(fmt.Sprintf("length%d of %d", l, n), answer{raw: response(206, b)})
		f(fmt.Sprintf("length%d of %d chunked", l, n), answer{raw: chunked(206, b, 3, true)})
		f(fmt.Sprintf("length%d of %d until close", l, n), answer{raw: unbounded(206, b)})
	}
	for k := 0; k < n; k++ {
		f(fmt.Sprintf("drop after %d of %d", k, n), answer{raw: claims(206, n, data[:k])})
		f(fmt.Sprintf("drop after %d of %d chunked", k, n), answer{raw: chunked(206, data[:k], 3, false)})
		f(fmt.Sprintf("reset after %d of %d", k, n), answer{raw: claims(206, n, data[:k]), reset: true})
	}
	f("announces more", answer{raw: claims(206, n+1, data)})
	f("announces much more", answer{raw: claims(206, n+100000, data)})
	f("announces more, reset", answer{raw: claims(206, n+10, data), reset: true})
	f("announces less", answer{raw: claims(206, n-1, data)})
	f("chunked without end", answer{raw: chunked(206, data, 3, false)})
	f("chunked with a broken piece", answer{raw: append(chunked(206, data, 3, false), "zz\r\n"...)})
	head := response(206, data)
	for k := 0; k < len(head)-n; k++ {
		f(fmt.Sprintf("header cut at %d", k), answer{raw: head[:k]})
	}
	f("garbage", answer{raw: []byte("\x00\x01\x02 nonsense\r\n\r\n")})
	for _, e := range []string{"gzip", "GZIP", "Gzip", "x-gzip", "identity, gzip", "gzip, identity", "deflate, gzip"} {
		f("encoding "+e, answer{raw: response(206, data, "Content-Encoding: "+e)})
	}
	f("encoding in two headers", answer{raw: response(206, data, "Content-Encoding: identity", "Content-Encoding: gzip")})
	f("really gzip encoded", answer{raw: response(206, gzipped(data), "Content-Encoding: gzip")})
	f("gzip encoded without saying so", answer{raw: response(206, gzipped(data))})
}

func lengths(n int) []int {
	r := []int{}
	for _, l := range []int{0, 1, n / 2, n - 1, n + 1, n + 2, 2 * n, 2*n + 1, n + 512, n + 5000} {
		if l != n && l >= 0 {
			dup := false
			for _, x := range r {
				dup = dup || x == l
			}
			if !dup {
				r = append(r, l)
			}
		}
	}
	return r
}

// goodAnswers lists answers that must be accepted.
func goodAnswers(data []byte, a, total int64, f func(name string, x answer)) {
	f("plain", answer{raw: response(206, data)})
	f("content range", answer{raw: response(206, data, fmt.Sprintf("Content-Range: bytes %d-%d/%d", a, a+int64(len(data))-1, total))})
	f("chunked 1", answer{raw: chunked(206, data, 1, true)})
	f("chunked 7", answer{raw: chunked(206, data, 7, true)})
	f("until close", answer{raw: unbounded(206, data)})
	f("identity", answer{raw: response(206, data, "Content-Encoding: identity")})
	f("http 1.0", answer{raw: []byte("HTTP/1.0 206 Partial\r\n\r\n" + string(data))})
	f("many headers", answer{raw: response(206, data, "ETag: \"gzip\"", "Vary: Accept-Encoding", "X-A: gzip", "Content-Type: application/gzip")})
}

var httpServer *server

// httpGet requests one span from an HTTP source and gives what the consumer got.
type httpRun struct {
	got    []patcher.BlockReponse
	errs   []error
	opened bool
	read   int64
}

func httpGet(s *server, res blocksources.BlockSourceOffsetResolver, conc int, bs int, spans []rng, want int) *httpRun {
	src := blocksources.NewHttpBlockSource(s.url(), conc, res, nil)
	r := &httpRun{}
	for _, x := range spans {
		if err := src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: x.a, EndBlock: x.b, BlockSize: int64(bs)}); err != nil {
			r.errs = append(r.errs, err)
			return r
		}
	}
	for len(r.got) < want && len(r.errs) == 0 {
		k := vs.Select(false, vs.RecvCase(src.GetResultChannel()), vs.RecvCase(src.EncounteredError()))
		if k.I == 0 {
			v, ok := vs.SelVal2(src.GetResultChannel(), k)
			if !ok {
				break
			}
			r.got = append(r.got, v)
		} else {
			v, ok := vs.SelVal2(src.EncounteredError(), k)
			if !ok {
				break
			}
			r.errs = append(r.errs, v)
		}
	}
	r.read = src.ReadBytes()
	src.Close()
	vs.Quiesce()
	return r
}

// sparse is the content of a file at an offset, without the file.
func sparse(a, b int64) []byte {
	d := make([]byte, b-a)
	for i := range d {
		o := uint64(a) + uint64(i)
		d[i] = byte((o * 0x9E3779B97F4A7C15) >> 56)
	}
	return d
}

func c12(tier string, emit func(eng.Case)) {
	type cfg struct {
		bs   int64
		size int64
		max  uint64
	}
	// all ranges of small files
	for _, c := range []cfg{{1, 5, 0}, {4, 18, 0}, {4, 20, 0}, {10, 45, 20}, {7, 30, 7}, {5, 23, 13}} {
		nb := uint((c.size + c.bs - 1) / c.bs)
		for a := uint(0); a < nb; a++ {
			for b := a; b < nb; b++ {
				batch(emit, fmt.Sprintf("range-bs%d-size%d-max%d-%d-%d", c.bs, c.size, c.max, a, b), func() {
					s := httpServer
					file := sparse(0, c.size)
					res := &blocksources.FixedSizeBlockResolver{BlockSize: uint64(c.bs), FileSize: c.size, MaxDesiredRequestSize: c.max}
					end := int64(b+1) * c.bs
					if end > c.size {
						end = c.size
					}
					// pieces that the span is divided into
					per := uint(1)
					if c.max == 0 {
						per = b - a + 1
					} else if c.max/uint64(c.bs) > 1 {
						per = uint(c.max / uint64(c.bs))
					}
					pieces := int((b - a + per) / per)
					for conc := 1; conc <= 3; conc++ {
						s.reset(func(k int, x, y int64, r *http.Request) answer { return answer{raw: response(206, cut(file, x, y))} })
						r := httpGet(s, res, conc, int(c.bs), []rng{{a, b}}, pieces)
						eng.Eval(1)
						seen := s.requests()
						if len(r.errs) > 0 || len(r.got) != pieces {
							eng.Failf("blocks %d-%d: %d responses, errors %v", a, b, len(r.got), r.errs)
							return
						}
						var all []byte
						for _, g := range r.got {
							all = append(all, g.Data...)
						}
						if !bytes.Equal(all, file[int64(a)*c.bs:end]) {
							eng.Failf("blocks %d-%d: got %q", a, b, all)
						}
						// the requests ask for exactly the pieces
						need := map[string]int{}
						for p := a; p <= b; p += per {
							z := int64(p+per) * c.bs
							if p+per > b+1 {
								z = int64(b+1) * c.bs
							}
							if z > c.size {
								z = c.size
							}
							need[fmt.Sprintf("bytes=%d-%d", int64(p)*c.bs, z-1)]++
						}
						for _, q := range seen {
							if q.method != "GET" || q.path != "/the/file?v=1" || q.rngs != 1 {
								eng.Failf("request %+v", q)
							}
							if e := strings.ToLower(q.enc); !strings.Contains(e, "identity") || strings.Contains(e, "gzip") || strings.Contains(e, "deflate") || strings.Contains(e, "br") {
								eng.Failf("the request for %s allows compression: Accept-Encoding %q", q.rng, q.enc)
							}
							need[q.rng]--
						}
						for k, n := range need {
							if n != 0 {
								eng.Failf("blocks %d-%d: the range %q was asked for %d times too little; requests: %+v", a, b, k, n, seen)
							}
						}
						if r.read != end-int64(a)*c.bs {
							eng.Failf("blocks %d-%d: ReadBytes says %d", a, b, r.read)
						}
						eng.Outcome(fmt.Sprint(c, a, b, conc))
					}
				})
			}
		}
	}
	// far offsets
	for _, c := range []cfg{{1 << 20, 3<<30 + 5, 0}, {1 << 16, 1<<32 + 77, 0}, {1 << 16, 1<<40 + 1, 0}, {65537, 1 << 41, 0}, {1, 1<<32 + 10, 0}, {1 << 10, 0, 0}} {
		batch(emit, fmt.Sprintf("far-bs%d-size%d", c.bs, c.size), func() {
			s := httpServer
			res := &blocksources.FixedSizeBlockResolver{BlockSize: uint64(c.bs), FileSize: c.size}
			size := c.size
			if size == 0 {
				size = 1 << 50
			}
			for _, o := range []int64{0, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<40 - 1, size - 1} {
				b := uint(o / c.bs)
				if o >= size {
					continue
				}
				s.reset(func(k int, x, y int64, r *http.Request) answer {
					if y-x > 4<<20 || y <= x {
						return answer{raw: response(500, nil)}
					}
					return answer{raw: response(206, sparse(x, y))}
				})
				r := httpGet(s, res, 1, int(c.bs), []rng{{b, b}}, 1)
				eng.Eval(1)
				x, y := int64(b)*c.bs, int64(b+1)*c.bs
				if y > size {
					y = size
				}
				if len(r.errs) > 0 || len(r.got) != 1 || r.got[0].StartBlock != b || !bytes.Equal(r.got[0].Data, sparse(x, y)) {
					eng.Failf("block %d (bytes %d-%d): errors %v, %d responses, requests %+v", b, x, y-1, r.errs, len(r.got), s.requests())
					return
				}
				if q := s.requests(); len(q) != 1 || q[0].rng != fmt.Sprintf("bytes=%d-%d", x, y-1) {
					eng.Failf("block %d (bytes %d-%d): requests %+v", b, x, y-1, q)
				}
				eng.Outcome(fmt.Sprint(c, b))
			}
		})
	}
	// every answer
	type rg struct {
		bs, size int64
		a, b     uint
	}
	for _, g := range pick(tier, []rg{{8, 50, 1, 2}, {8, 50, 6, 6}, {1, 5, 2, 2}, {8, 20, 0, 2}, {8, 50, 0, 0}}, []rg{{8, 50, 1, 2}, {8, 50, 6, 6}, {1, 5, 2, 2}, {8, 20, 0, 2}, {8, 50, 0, 0}, {8, 50, 0, 6}, {100, 1000, 3, 5}, {5000, 20000, 1, 2}}) {
		file := sparse(0, g.size)
		x, y := int64(g.a)*g.bs, int64(g.b+1)*g.bs
		if y > g.size {
			y = g.size
		}
		data := cut(file, x, y)
		res := &blocksources.FixedSizeBlockResolver{BlockSize: uint64(g.bs), FileSize: g.size}
		badAnswers(data, file, tier, func(name string, an answer) {
			batch(emit, fmt.Sprintf("bad-%d-%d-%d-%d-%s", g.bs, g.size, g.a, g.b, name), func() {
				s := httpServer
				s.reset(func(int, int64, int64, *http.Request) answer { return an })
				r := httpGet(s, res, 1, int(g.bs), []rng{{g.a, g.b}}, 1)
				if len(r.got) > 0 || len(r.errs) != 1 || r.errs[0] == nil {
					eng.Failf("answer %q to the request of bytes %d-%d: %d responses, errors %v", name, x, y-1, len(r.got), r.errs)
				}
				eng.Outcome(fmt.Sprint(g, strings.SplitN(name, " ", 2)[0], r.errs))
				// after it, with a second request under way
				s.reset(func(k int, p, q int64, _ *http.Request) answer {
					if p == x {
						return an
					}
					return answer{raw: response(206, cut(file, p, q))}
				})
				if g.a > 0 {
					r = httpGet(s, res, 2, int(g.bs), []rng{{0, 0}, {g.a, g.b}}, 2)
					for _, v := range r.got {
						if v.StartBlock != 0 || !bytes.Equal(v.Data, file[:g.bs]) {
							eng.Failf("answer %q: delivered block %d, %q", name, v.StartBlock, v.Data)
						}
					}
					if len(r.errs) != 1 || r.errs[0] == nil {
						eng.Failf("answer %q to the second request: errors %v", name, r.errs)
					}
				}
			})
		})
		goodAnswers(data, x, g.size, func(name string, an answer) {
			batch(emit, fmt.Sprintf("good-%d-%d-%d-%d-%s", g.bs, g.size, g.a, g.b, name), func() {
				s := httpServer
				s.reset(func(int, int64, int64, *http.Request) answer { return an })
				r := httpGet(s, res, 1, int(g.bs), []rng{{g.a, g.b}}, 1)
				if len(r.got) != 1 || len(r.errs) > 0 || r.got[0].StartBlock != g.a || !bytes.Equal(r.got[0].Data, data) {
					eng.Failf("answer %q to the request of bytes %d-%d: %v, errors %v", name, x, y-1, r.got, r.errs)
				}
				eng.Outcome(fmt.Sprint(g, name))
			})
		})
	}
	batch(emit, "nobody-listens", func() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return
		}
		addr := l.Addr().String()
		l.Close()
		for _, u := range []string{"http://" + addr + "/x", "nothing", "http://", "%zz", "/no/such/file"} {
			src := blocksources.NewHttpBlockSource(u, 1, blocksources.MakeFileSizedBlockResolver(4, 10), nil)
			src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: 0, EndBlock: 1, BlockSize: 4})
			k := vs.Select(false, vs.RecvCase(src.GetResultChannel()), vs.RecvCase(src.EncounteredError()))
			if k.I == 0 {
				eng.Failf("data from %q", u)
			} else if e, ok := vs.SelVal2(src.EncounteredError(), k); !ok || e == nil {
				eng.Failf("no error from %q", u)
			}
			src.Close()
			vs.Quiesce()
		}
	})
}

func init() {
	eng.Register(&eng.Prop{ID: "C12", Gen: c12, Setup: func() { httpServer = newServer() },
		Rule: "input: requested range, what the server answers (raw bytes, end or reset of the connection); execution: one schedule; distinct: by range and answer",
		Bounds: func(tier string) string {
			return "all ranges of files of up to 7 blocks, offsets up to 2^50; every status code, wrong lengths, every cut of header and body, encodings, for " + pick(tier, "5 ranges of up to 20 bytes", "8 ranges of up to 10000 bytes")
		},
		Assume: []string{"net/http parses HTTP correctly", "a server that never answers is not covered", "a server that sends other bytes of the right number is the subject of C25"}})
}
