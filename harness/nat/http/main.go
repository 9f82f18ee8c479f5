// Native enumeration for package httpclient (C29) against servers on the loopback interface.
package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/donnie4w/gofer/httpclient"
	"verif.local/v/comb"
	"verif.local/v/lib/netx"
	"verif.local/v/run"
)

func main() { run.Main(map[string]run.Maker{"C29": c29}) }

const wait = 20 * time.Second

// seen is one request as the server saw it.
type seen struct {
	req  *http.Request
	body []byte
	err  error
	eof  bool // the client closed the connection afterwards
	rest []byte
	sent int64 // bytes the server had written when the response was complete
}

// server answers each connection with one raw response.
type server struct {
	*netx.Server
	mu    sync.Mutex
	got   []*seen
	resp  func(r *http.Request) [][]byte // written one after another
	close bool                           // the response ends with the connection
	pause time.Duration                  // before each piece
}

var cert = netx.NewCert("gofer")

func newServer(https bool) *server {
	s := &server{}
	var c *netx.Cert
	if https {
		c = cert
	}
	s.Server = netx.NewServer(c, s.handle)
	return s
}

func (s *server) handle(c net.Conn, raw *netx.Conn) {
	x := &seen{}
	defer func() {
		s.mu.Lock()
		s.got = append(s.got, x)
		s.mu.Unlock()
	}()
	r := bufio.NewReader(c)
	if x.req, x.err = http.ReadRequest(r); x.err == nil {
		x.body, x.err = io.ReadAll(x.req.Body)
	}
	if x.err != nil {
		x.eof = !isTimeout(x.err)
		return
	}
	for i, p := range s.resp(x.req) {
		if s.pause > 0 {
			time.Sleep(s.pause)
		} else if i > 0 {
			time.Sleep(50 * time.Microsecond)
		}
		c.Write(p)
	}
	x.sent = atomic.LoadInt64(&raw.Written)
	if s.close {
		if t, ok := c.(*tls.Conn); ok {
			t.CloseWrite()
		}
		raw.Conn.(*net.TCPConn).CloseWrite()
	}
	var err error
	x.rest, err = io.ReadAll(r) // until the client closes
	if err == nil || !isTimeout(err) {
		x.eof = true
	}
}

func isTimeout(err error) bool {
	var ne net.Error
	return errors.As(err, &ne) && ne.Timeout()
}

func (s *server) url(scheme, path string) string { return scheme + "://" + s.Addr() + path }

// take returns what the server saw since the last call; every connection has to be closed by the client.
func (s *server) take(t *run.T, what string) []*seen {
	if !s.Wait(wait) {
		t.Fail("%s: a connection is still open %v after the call returned", what, wait)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	l := s.got
	s.got = nil
	return l
}

func pattern(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8*3 + i>>16)
	}
	return b
}

type call struct {
	fn     int // 0 Post, 1 Post2, 2 Post3
	body   []byte
	close  bool
	header map[string]string
	cookie *http.Cookie
}

func (c call) String() string {
	return fmt.Sprintf("%s(%d bytes, close %v, header %v, cookie %v)", []string{"Post", "Post2", "Post3"}[c.fn], len(c.body), c.close, c.header, c.cookie)
}

func (c call) do(url string) ([]byte, error) {
	switch c.fn {
	case 0:
		return httpclient.Post(c.body, url)
	case 1:
		return httpclient.Post2(c.body, c.close, url)
	}
	return httpclient.Post3(c.body, c.close, url, c.header, c.cookie)
}

// check compares what arrived with the call.
func (c call) check(t *run.T, what string, l []*seen, host, uri string) {
	if len(l) != 1 {
		t.Fail("%s: the server saw %d connections", what, len(l))
	}
	x := l[0]
	if x.err != nil {
		t.Fail("%s: the server could not read the request: %v", what, x.err)
	}
	if x.req.Method != "POST" || x.req.RequestURI != uri || x.req.Host != host {
		t.Fail("%s: the server got %s %s for host %s", what, x.req.Method, x.req.RequestURI, x.req.Host)
	}
	if !bytes.Equal(x.body, c.body) {
		t.Fail("%s: the server got a body of %d bytes that differs from the %d bytes given", what, len(x.body), len(c.body))
	}
	if len(x.rest) > 0 {
		t.Fail("%s: %d bytes followed the request", what, len(x.rest))
	}
	if c.fn == 2 {
		for k, v := range c.header {
			if g := x.req.Header[http.CanonicalHeaderKey(k)]; k != "Cookie" && (len(g) != 1 || g[0] != v) {
				t.Fail("%s: header %s arrived as %q, given %q", what, k, g, v)
			}
		}
	}
	var want []*http.Cookie
	if c.fn == 2 && c.cookie != nil {
		r := &http.Request{Header: http.Header{}}
		r.AddCookie(c.cookie)
		want = r.Cookies()
	}
	got := x.req.Cookies()
	if len(got) != len(want) || len(x.req.Header["Cookie"]) != len(want) {
		t.Fail("%s: the server got the cookies %q", what, x.req.Header["Cookie"])
	}
	for i, k := range want {
		if got[i].Name != k.Name || got[i].Value != k.Value {
			t.Fail("%s: the cookie arrived as %q", what, x.req.Header["Cookie"])
		}
	}
	for k := range x.req.Header {
		// nothing of another call
		switch k {
		case "User-Agent", "Accept-Encoding", "Connection", "Keep-Alive", "Transfer-Encoding", "Te", "Trailer", "Cookie", "Host":
		default:
			if strings.HasPrefix(k, "Content-") {
				continue
			}
			ok := false
			for h := range c.header {
				ok = ok || http.CanonicalHeaderKey(h) == k
			}
			if !ok || c.fn != 2 {
				t.Fail("%s: header %s arrived, which was not given", what, k)
			}
		}
	}
}

// response framings
type framing struct {
	name  string
	make  func(body []byte) []byte
	close bool // ends with the connection: a cut cannot be noticed
}

func head(status string, h ...string) string {
	return "HTTP/1.1 " + status + "\r\n" + strings.Join(append(h, ""), "\r\n") + "\r\n"
}

func chunks(body []byte, size int, trailer string) string {
	var b strings.Builder
	for len(body) > 0 {
		n := min(size, len(body))
		fmt.Fprintf(&b, "%x\r\n%s\r\n", n, body[:n])
		body = body[n:]
	}
	return b.String() + "0\r\n" + trailer + "\r\n"
}

func zip(body []byte) []byte {
	var b bytes.Buffer
	w := gzip.NewWriter(&b)
	w.Write(body)
	w.Close()
	return b.Bytes()
}

var framings = []framing{
	{"length", func(b []byte) []byte {
		return []byte(head("200 OK", fmt.Sprintf("Content-Length: %d", len(b))) + string(b))
	}, false},
	{"chunked", func(b []byte) []byte {
		return []byte(head("200 OK", "Transfer-Encoding: chunked") + chunks(b, 5000, ""))
	}, false},
	{"chunks of 3 with a trailer", func(b []byte) []byte {
		return []byte(head("200 OK", "Transfer-Encoding: chunked", "Trailer: X-T", "Connection: close") + chunks(b, 3, "X-T: 1\r\n"))
	}, false},
	{"until the end", func(b []byte) []byte { return []byte(head("200 OK", "Connection: close") + string(b)) }, true},
	{"http 1.0", func(b []byte) []byte { return []byte("HTTP/1.0 200 OK\r\n\r\n" + string(b)) }, true},
	{"gzip", func(b []byte) []byte {
		z := zip(b)
		return []byte(head("200 OK", "Content-Encoding: gzip", fmt.Sprintf("Content-Length: %d", len(z))) + string(z))
	}, false},
	{"status 404", func(b []byte) []byte {
		return []byte(head("404 Not Found", fmt.Sprintf("Content-Length: %d", len(b))) + string(b))
	}, false},
	{"status 500 chunked", func(b []byte) []byte {
		return []byte(head("500 Oops", "Transfer-Encoding: chunked") + chunks(b, 7000, ""))
	}, false},
	{"after 100 continue", func(b []byte) []byte {
		return []byte("HTTP/1.1 100 Continue\r\n\r\n" + head("201 Created", fmt.Sprintf("Content-Length: %d", len(b))) + string(b))
	}, false},
	{"keep-alive", func(b []byte) []byte {
		return []byte(head("200 OK", "Connection: keep-alive", fmt.Sprintf("Content-Length: %d", len(b))) + string(b))
	}, false},
}

func scheme(https bool) string {
	if https {
		return "https"
	}
	return "http"
}

func c29(thorough bool) (l []run.Scenario) {
	add := func(name string, f func(t *run.T)) { l = append(l, run.Scenario{Name: "nat/" + name, Nat: f}) }
	sizes := []int{0, 1, 2, 3, 511, 512, 513, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 1 << 20, 3<<20 + 1}
	headers := []map[string]string{nil, {}, {"X-A": "1"}, {"x-low": "v", "Content-Type": "application/x", "User-Agent": "me"}, {"X-Empty": "", "Accept": "*/*", "Accept-Encoding": "identity", "X-Sp": "a b;c=\"d\""}}
	cookies := []*http.Cookie{nil, {Name: "k", Value: "v"}, {Name: "sid", Value: "a1b2-c3_d4.e5", Path: "/", HttpOnly: true},
		{Name: "full", Value: "x", Path: "/p", Domain: "example.org", Expires: time.Unix(2e9, 0), MaxAge: 60, Secure: true, SameSite: http.SameSiteLaxMode},
		{Name: "old", Value: "z", Expires: time.Unix(1, 0), MaxAge: -1}, {Name: "sp", Value: "a b,c"}, {Name: "empty", Value: ""},
		{Name: "dom", Value: "d", Domain: "-no-.domain"}, {Name: "path", Value: "p", Path: "/\x01;"}, {Name: "part", Value: "q", Partitioned: true}, {Name: "year", Value: "y", Expires: time.Unix(-2e10, 0)}}
	paths := []string{"/", "/p", "/p/q.x?a=1&b=%20c", "/%E4%B8%AD/x;y?z"}
	for _, https := range []bool{false, true} {
		sc := scheme(https)
		// every request variant
		for fn := 0; fn < 3; fn++ {
			for si, size := range sizes {
				if https && si%3 != 0 && !thorough {
					continue
				}
				add(fmt.Sprintf("request/%s/%d/%d", sc, fn, size), func(t *run.T) {
					s := newServer(https)
					defer s.Close()
					answer := []byte("answer")
					s.resp = func(*http.Request) [][]byte { return [][]byte{framings[0].make(answer)} }
					body := pattern(size)
					for _, cl := range []bool{false, true} {
						for _, h := range headers {
							for _, ck := range cookies {
								for _, p := range paths {
									c := call{fn, body, cl, h, ck}
									if fn < 2 && (len(h) > 0 || ck != nil) || fn == 0 && cl || size > 70000 && p != "/p" {
										continue
									}
									if size == 0 && cl {
										c.body = nil
									}
									r, err := c.do(s.url(sc, p))
									what := c.String() + " to " + p
									if err != nil || !bytes.Equal(r, answer) {
										t.Fail("%s returned %q, %v", what, r, err)
									}
									if !bytes.Equal(body, pattern(size)) {
										t.Fail("%s changed the body", what)
									}
									c.check(t, what, s.take(t, what), s.Addr(), p)
									t.Case(1)
								}
							}
						}
					}
				})
			}
		}
		// every response variant
		for _, f := range framings {
			add(fmt.Sprintf("response/%s/%s", sc, f.name), func(t *run.T) {
				s := newServer(https)
				defer s.Close()
				s.close = f.close
				for _, size := range sizes {
					if size > 1<<20 && f.name == "chunks of 3 with a trailer" {
						continue
					}
					want := pattern(size)
					raw := f.make(want)
					s.resp = func(r *http.Request) [][]byte {
						if f.name == "gzip" && !strings.Contains(r.Header.Get("Accept-Encoding"), "gzip") {
							return [][]byte{framings[0].make(want)}
						}
						return [][]byte{raw}
					}
					for fn := 0; fn < 3; fn++ {
						for _, cl := range []bool{false, true} {
							c := call{fn: fn, body: []byte("q"), close: cl}
							r, err := c.do(s.url(sc, "/r"))
							what := fmt.Sprintf("%v, response of %d bytes (%s)", c, size, f.name)
							if err != nil || !bytes.Equal(r, want) {
								t.Fail("%s: returned %d bytes, %v", what, len(r), err)
							}
							c.check(t, what, s.take(t, what), s.Addr(), "/r")
							t.Case(1)
						}
					}
				}
			})
			// the response arrives in two pieces, split anywhere
			add(fmt.Sprintf("split/%s/%s", sc, f.name), func(t *run.T) {
				s := newServer(https)
				defer s.Close()
				s.close = f.close
				want := pattern(20)
				raw := f.make(want)
				for k := 0; k <= len(raw); k++ {
					s.resp = func(r *http.Request) [][]byte { return [][]byte{raw[:k], raw[k:]} }
					c := call{fn: k % 3, body: []byte("q")}
					r, err := c.do(s.url(sc, "/r"))
					what := fmt.Sprintf("%v, response (%s) in pieces of %d and %d bytes", c, f.name, k, len(raw)-k)
					if err != nil || !bytes.Equal(r, want) {
						t.Fail("%s: returned %d bytes, %v", what, len(r), err)
					}
					c.check(t, what, s.take(t, what), s.Addr(), "/r")
					t.Case(1)
				}
			})
			// cut at every byte
			if f.close {
				continue
			}
			for _, reset := range []bool{false, true} {
				for _, cl := range []bool{false, true} {
					add(fmt.Sprintf("cut/%s/%s/reset %v/close %v", sc, f.name, reset, cl), func(t *run.T) {
						s := newServer(https)
						defer s.Close()
						size := 20
						if thorough {
							size = 300
						}
						want := pattern(size)
						raw := f.make(want)
						s.resp = func(*http.Request) [][]byte { return [][]byte{raw} }
						for k := 0; ; k++ {
							if !t.More() {
								return
							}
							s.SetLimit(int64(k), reset)
							c := call{fn: 2, body: []byte("question"), close: cl}
							conns := atomic.LoadInt64(&s.Conns)
							r, err := c.do(s.url(sc, "/r"))
							what := fmt.Sprintf("%v, connection cut after %d bytes of the server's stream (%s, reset %v)", c, k, f.name, reset)
							l := s.take(t, what)
							complete := false
							for _, x := range l {
								complete = complete || x.err == nil && x.sent > 0 && x.sent <= int64(k)
							}
							if n := atomic.LoadInt64(&s.Conns) - conns; n != 1 {
								t.Fail("%s: %d connections were made", what, n)
							}
							t.Case(1)
							switch {
							case err == nil && !complete:
								t.Fail("%s: returned %d bytes and no error", what, len(r))
							case err == nil && !bytes.Equal(r, want):
								t.Fail("%s: returned %d bytes that differ from the response", what, len(r))
							case err != nil && len(r) > 0:
								t.Fail("%s: returned %v and %d bytes", what, err, len(r))
							case err != nil && complete && !reset:
								t.Fail("%s: returned %v for a complete response", what, err)
							}
							if complete {
								if k < len(raw) {
									t.Fail("%s: harness error", what)
								}
								return
							}
						}
					})
				}
			}
		}
		// every status, with and without a body
		add("status/"+sc, func(t *run.T) {
			s := newServer(https)
			defer s.Close()
			step := 1
			if https && !thorough {
				step = 7
			}
			for status := 200; status < 1000; status += step {
				for k, want := range [][]byte{pattern(300), {}} {
					if status == 204 || status == 304 {
						want = nil
					}
					raw := []byte(head(fmt.Sprintf("%d %s", status, http.StatusText(status)), "Content-Length: "+fmt.Sprint(len(want)), "WWW-Authenticate: Basic", "Retry-After: 1", "X-K: v") + string(want))
					if want == nil {
						raw = []byte(head(fmt.Sprintf("%d No", status), "Retry-After: 1"))
					}
					s.resp = func(*http.Request) [][]byte { return [][]byte{raw} }
					c := call{fn: (status + k) % 3, body: []byte("q"), close: status%2 == 0}
					r, err := c.do(s.url(sc, "/s"))
					what := fmt.Sprintf("%v, status %d with %d bytes", c, status, len(want))
					if err != nil || !bytes.Equal(r, want) {
						t.Fail("%s: returned %q, %v", what, r, err)
					}
					c.check(t, what, s.take(t, what), s.Addr(), "/s")
					t.Case(1)
				}
			}
		})
		// long and many headers in the answer
		add("headers/"+sc, func(t *run.T) {
			s := newServer(https)
			defer s.Close()
			for _, size := range []int{100, 1000, 4000, 4096, 5000, 9000, 17000, 33000, 66000, 132000, 300000, 1000000} {
				for _, n := range []int{1, 10, 100} {
					var hs []string
					for i := 0; i < n; i++ {
						hs = append(hs, fmt.Sprintf("X-H%d: %s", i, strings.Repeat("h", size/n)))
					}
					want := pattern(40)
					raw := []byte(head("200 OK", append(hs, "Set-Cookie: a=b", "Content-Length: 40")...) + string(want))
					s.resp = func(*http.Request) [][]byte { return [][]byte{raw} }
					c := call{fn: n % 3, body: []byte("q")}
					r, err := c.do(s.url(sc, "/h"))
					what := fmt.Sprintf("%v, answer with %d headers of %d bytes together", c, n, size)
					if err != nil || !bytes.Equal(r, want) {
						t.Fail("%s: returned %q, %v", what, r, err)
					}
					c.check(t, what, s.take(t, what), s.Addr(), "/h")
					t.Case(1)
				}
			}
		})
		// contents that look like something, both ways
		add("contents/"+sc, func(t *run.T) {
			s := newServer(https)
			defer s.Close()
			types := []string{"", "text/plain", "text/plain; charset=iso-8859-1", "application/json", "application/x-www-form-urlencoded", "application/octet-stream", "multipart/form-data; boundary=b", "text/html"}
			for _, x := range []string{"{\"a\":1}", "[1, 2]", "<a/>", "<!DOCTYPE html><p>", "a=b&c=d%20e", "\xef\xbb\xbfbom", "\xff\xfeu\x00", "\x00\x00\x00", "\x1f\x8b\x08\x00\x00\x00\x00\x00", "%PDF-1.4", "a\nb\r\nc\n", "\r\n\r\n", " \t ", "\xe9\xe8", "\x80", "--b\r\n\r\nx\r\n--b--", "0\r\n\r\n", "null"} {
				for _, ty := range types {
					var hs []string
					c := call{fn: 2, body: []byte(x)}
					if ty != "" {
						hs = append(hs, "Content-Type: "+ty)
						c.header = map[string]string{"Content-Type": ty, "X-Q": "1"}
					}
					raw := []byte(head("200 OK", append(hs, fmt.Sprintf("Content-Length: %d", len(x)))...) + x)
					s.resp = func(*http.Request) [][]byte { return [][]byte{raw} }
					r, err := c.do(s.url(sc, "/c"))
					what := fmt.Sprintf("%v with %q, answered with the same as %q", c, x, ty)
					if err != nil || string(r) != x {
						t.Fail("%s: returned %q, %v", what, r, err)
					}
					c.check(t, what, s.take(t, what), s.Addr(), "/c")
					t.Case(1)
				}
			}
		})
		// tens of megabytes both ways
		add("large/"+sc, func(t *run.T) {
			s := newServer(https)
			defer s.Close()
			sizes := []int{9 << 20, 33 << 20, 65<<20 + 1}
			if thorough {
				sizes = append(sizes, 129<<20, 257<<20)
			}
			for _, size := range sizes {
				if https && size > 40<<20 && !thorough || !t.More() {
					continue
				}
				body := pattern(size)
				for _, f := range []framing{framings[0], framings[1], framings[3], framings[5]} {
					if f.name == "gzip" && size > 40<<20 && !thorough {
						continue
					}
					raw := f.make(body)
					s.close = f.close
					s.resp = func(*http.Request) [][]byte { return [][]byte{raw} }
					c := call{fn: 2, body: body}
					r, err := c.do(s.url(sc, "/r"))
					what := fmt.Sprintf("%v, response of %d bytes (%s)", c, size, f.name)
					if err != nil || !bytes.Equal(r, body) {
						t.Fail("%s: returned %d bytes, %v", what, len(r), err)
					}
					c.check(t, what, s.take(t, what), s.Addr(), "/r")
					t.Case(1)
				}
			}
		})
		// servers that take their time: before the connection is served, before the answer, within the answer
		long := []time.Duration{3, 6, 11, 16, 31}
		if thorough {
			long = append(long, 46, 61, 91, 121)
		}
		l = append(l, run.Scenario{Name: "nat/slow/" + sc, Timeout: 6 * time.Minute, Nat: func(t *run.T) {
			var wg sync.WaitGroup
			for _, d := range long {
				d *= time.Second
				for kind := 0; kind < 4; kind++ {
					for fn := 0; fn < 3; fn++ {
						s := newServer(https)
						s.Long = 2 * d
						want := pattern(5000)
						raw := framings[fn%2].make(want)
						what := fmt.Sprintf("%v before the connection is served", d)
						pieces := [][]byte{raw}
						switch kind {
						case 1:
							what = fmt.Sprintf("%v before the answer", d)
						case 2:
							what = fmt.Sprintf("%v within the answer", d)
							pieces = [][]byte{raw[:2000], raw[2000:]}
						case 3:
							what = fmt.Sprintf("%v for the pieces of the answer", d)
							pieces = nil
							for i := 0; i < len(raw); i += 500 {
								pieces = append(pieces, raw[i:min(i+500, len(raw))])
							}
						}
						s.resp = func(*http.Request) [][]byte { return pieces }
						if kind == 0 {
							s.Slow = d
						} else {
							s.pause = d / time.Duration(len(pieces))
						}
						wg.Add(1)
						go func() {
							defer wg.Done()
							defer s.Close()
							c := call{fn: fn, body: pattern(100), close: kind%2 == 0}
							r, err := c.do(s.url(sc, "/slow"))
							if err != nil || !bytes.Equal(r, want) {
								t.Note("%v, %s: returned %d bytes, %v", c, what, len(r), err)
							}
							t.Step()
						}()
					}
				}
			}
			t.Returns("calls of slow servers", 4*time.Minute, wg.Wait)
			t.Check()
			t.Case(12 * len(long))
		}})
		// answers that are none
		add("invalid/"+sc, func(t *run.T) {
			s := newServer(https)
			defer s.Close()
			s.close = true
			for _, raw := range []string{
				"", "\r\n", "HTTP", "garbage\r\n\r\n", "HTTP/1.1\r\n\r\n", "HTTP/1.1 abc OK\r\n\r\n", "HTTP/1.1 20 OK\r\n\r\n", "HTTP/1.1 -20 OK\r\n\r\n", "HTTX/1.1 200 OK\r\nContent-Length: 1\r\n\r\nx", "HTTP/9 200 OK\r\n\r\nabc",
				"HTTP/1.1 200 OK\r\nContent-Length: 1\r\nContent-Length: 2\r\n\r\nab", "HTTP/1.1 200 OK\r\nContent-Length: -1\r\n\r\nab", "HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\nab",
				"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\nab\r\n0\r\n\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nabX\r\n0\r\n\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nab\r\n0\r\n\r\n",
				"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n-1\r\nab\r\n0\r\n\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: other\r\n\r\nab", "HTTP/1.1 200 OK\r\nno colon\r\n\r\nab", "HTTP/1.1 200 OK\r\n: x\r\n\r\nab",
				"HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: 5\r\n\r\nplain", "HTTP/1.1 100 Continue\r\n\r\n", "HTTP/1.1 301 Moved\r\nLocation: http://%zz/\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 307 Moved\r\nLocation: :\r\nContent-Length: 0\r\n\r\n",
			} {
				s.resp = func(*http.Request) [][]byte { return [][]byte{[]byte(raw)} }
				for fn := 0; fn < 3; fn++ {
					c := call{fn: fn, body: []byte("q")}
					r, err := c.do(s.url(sc, "/"))
					what := fmt.Sprintf("%v answered with %q", c, raw)
					s.take(t, what)
					if err == nil || len(r) > 0 {
						t.Fail("%s: returned %q, %v", what, r, err)
					}
					t.Case(1)
				}
			}
		})
		add("unreachable/"+sc, func(t *run.T) {
			for fn := 0; fn < 3; fn++ {
				c := call{fn: fn, body: []byte("q")}
				free := netx.FreePort()
				for _, u := range []string{sc + "://" + free + "/", "", "/x", "x", sc + "://", sc + ":///x", "ftp://" + free, sc + "://127.0.0.1:99999/", sc + "://%zz/", ":", sc + "://a b/", sc + "://" + free + "/\x7f", "mailto:a@b"} {
					r, err := c.do(u)
					if err == nil || len(r) > 0 {
						t.Fail("%v to %q returned %q, %v", c, u, r, err)
					}
					t.Case(1)
				}
				// the other protocol
				s := newServer(!https)
				s.resp = func(*http.Request) [][]byte { return [][]byte{framings[0].make([]byte("x"))} }
				r, err := c.do(s.url(sc, "/"))
				if err == nil || len(r) > 0 {
					t.Fail("%v by %s to a server of the other protocol returned %q, %v", c, sc, r, err)
				}
				s.take(t, "other protocol")
				s.Close()
				// headers and cookies that cannot be sent
				if fn == 2 {
					s := newServer(https)
					s.resp = func(*http.Request) [][]byte { return [][]byte{framings[0].make([]byte("x"))} }
					for _, h := range []map[string]string{{"a b": "x"}, {"": "x"}, {"X": "a\r\nY: b"}, {"X\r\nZ": "1"}} {
						c.header = h
						r, err := c.do(s.url(sc, "/"))
						if err == nil || len(r) > 0 {
							t.Fail("%v returned %q, %v", c, r, err)
						}
						for _, x := range s.take(t, "headers that cannot be sent") {
							if x.req != nil {
								t.Fail("%v: the server got a request", c)
							}
						}
						t.Case(1)
					}
					s.Close()
				}
			}
		})
		// several calls at once, answered in every order
		add("concurrent/"+sc, func(t *run.T) {
			n := 3
			if thorough {
				n = 5
			}
			comb.Perms(n, func(p []int) {
				s := newServer(https)
				turn := make([]chan bool, n)
				for i := range turn {
					turn[i] = make(chan bool)
				}
				var all sync.WaitGroup
				all.Add(n)
				s.resp = func(r *http.Request) [][]byte {
					var i int
					fmt.Sscanf(r.URL.Path, "/%d", &i)
					all.Done()
					<-turn[i]
					return [][]byte{framings[i%2].make(pattern(100 + i))}
				}
				var wg sync.WaitGroup
				done := make([]chan bool, n)
				for i := 0; i < n; i++ {
					wg.Add(1)
					done[i] = make(chan bool)
					go func() {
						defer wg.Done()
						defer close(done[i])
						c := call{fn: i % 3, body: pattern(10 + i)}
						r, err := c.do(s.url(sc, fmt.Sprintf("/%d", i)))
						if err != nil || !bytes.Equal(r, pattern(100+i)) {
							t.Note("concurrent %v returned %d bytes, %v", c, len(r), err)
						}
						t.Step()
					}()
				}
				t.Returns("sending the requests", wait, all.Wait)
				for _, i := range p {
					close(turn[i])
					t.Returns("the call that was answered", wait, func() { <-done[i] })
				}
				wg.Wait()
				t.Check()
				l := s.take(t, "concurrent")
				for i := 0; i < n; i++ {
					m := 0
					for _, x := range l {
						if x.err == nil && x.req.URL.Path == fmt.Sprintf("/%d", i) && bytes.Equal(x.body, pattern(10+i)) {
							m++
						}
					}
					if m != 1 {
						t.Fail("request %d arrived %d times", i, m)
					}
				}
				s.Close()
				t.State()
				t.Exec()
			})
		})
	}
	return
}
