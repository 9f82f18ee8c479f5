// Native enumeration for package websocket (C28) against servers on the loopback interface.
package main

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/donnie4w/gofer/websocket"
	"verif.local/v/comb"
	"verif.local/v/lib/netx"
	"verif.local/v/run"
)

func main() { run.Main(map[string]run.Maker{"C28": c28}) }

const wait = 20 * time.Second

var cert, other = netx.NewCert("gofer"), netx.NewCert("other")

// frame builds an unmasked frame.
func frame(op byte, p []byte) []byte {
	b := []byte{0x80 | op}
	switch n := len(p); {
	case n < 126:
		b = append(b, byte(n))
	case n < 65536:
		b = binary.BigEndian.AppendUint16(append(b, 126), uint16(n))
	default:
		b = binary.BigEndian.AppendUint64(append(b, 127), uint64(n))
	}
	return append(b, p...)
}

type in struct {
	op   byte
	data []byte
}

// readFrame reads one frame of the client, which has to be masked.
func readFrame(r *bufio.Reader) (f in, fin bool, err error) {
	h := make([]byte, 2)
	if _, err = io.ReadFull(r, h); err != nil {
		return
	}
	n := uint64(h[1] & 127)
	if h[1]&128 == 0 {
		return f, false, errors.New("frame is not masked")
	}
	if n == 126 {
		b := make([]byte, 2)
		if _, err = io.ReadFull(r, b); err != nil {
			return
		}
		n = uint64(binary.BigEndian.Uint16(b))
	} else if n == 127 {
		b := make([]byte, 8)
		if _, err = io.ReadFull(r, b); err != nil {
			return
		}
		n = binary.BigEndian.Uint64(b)
	}
	if n > 1<<26 {
		return f, false, fmt.Errorf("frame of %d bytes", n)
	}
	var key [4]byte
	if _, err = io.ReadFull(r, key[:]); err != nil {
		return
	}
	f.op, f.data = h[0]&15, make([]byte, n)
	if _, err = io.ReadFull(r, f.data); err != nil {
		return
	}
	for i := range f.data {
		f.data[i] ^= key[i&3]
	}
	return f, h[0]&128 != 0, nil
}

// peer is what the server does with one connection.
type peer struct {
	mu       sync.Mutex
	script   []string      // frames to write, raw
	hold     chan struct{} // when set, the end waits for it
	got      [][]byte      // messages received
	bad      string
	ended    bool
	closes   int
	sent     []int64 // bytes of the stream after the handshake and after each entry of the script
	received chan struct{}
	answer   func(r *http.Request) string // instead of the handshake
	fin      bool
}

func accept(r *http.Request) string {
	h := sha1.Sum([]byte(r.Header.Get("Sec-Websocket-Key") + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	return base64.StdEncoding.EncodeToString(h[:])
}

func (p *peer) handle(c net.Conn, raw *netx.Conn) {
	defer func() {
		p.mu.Lock()
		p.ended = true
		p.mu.Unlock()
	}()
	r := bufio.NewReader(c)
	req, err := http.ReadRequest(r)
	if err != nil {
		return
	}
	a := "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + accept(req) + "\r\n\r\n"
	if p.answer != nil {
		a = p.answer(req)
	}
	c.Write([]byte(a))
	p.mu.Lock()
	p.sent = append(p.sent, atomic.LoadInt64(&raw.Written))
	p.mu.Unlock()
	done := make(chan bool)
	go func() {
		defer close(done)
		for {
			f, fin, err := readFrame(r)
			if err != nil {
				if strings.Contains(err.Error(), "frame") {
					p.note("%v", err)
				}
				return
			}
			p.mu.Lock()
			switch {
			case f.op == 8:
				p.closes++
			case f.op == 1 || f.op == 2 && fin:
				p.got = append(p.got, f.data)
			case f.op == 10:
			default:
				p.bad = fmt.Sprintf("frame with opcode %d, fin %v", f.op, fin)
			}
			p.mu.Unlock()
		}
	}()
	for _, s := range p.script {
		c.Write([]byte(s))
		p.mu.Lock()
		p.sent = append(p.sent, atomic.LoadInt64(&raw.Written))
		p.mu.Unlock()
	}
	if p.hold != nil {
		select {
		case <-p.hold:
		case <-done:
		}
	}
	if t, ok := c.(interface{ CloseWrite() error }); ok {
		t.CloseWrite()
	}
	raw.Conn.(*net.TCPConn).CloseWrite()
	<-done
}

func (p *peer) note(f string, a ...any) {
	p.mu.Lock()
	p.bad = fmt.Sprintf(f, a...)
	p.mu.Unlock()
}

// client records the callbacks.
type client struct {
	mu                 sync.Mutex
	open, closes, errs int
	got                map[string]int
	n                  int
	bad                string
	done               chan struct{}
	h                  *websocket.Handler
	err                error
	reply              bool
}

func (c *client) cfg(url string) *websocket.Config {
	c.got, c.done = map[string]int{}, make(chan struct{})
	return &websocket.Config{Url: url, Origin: "http://127.0.0.1/",
		OnOpen: func(h *websocket.Handler) {
			c.mu.Lock()
			c.open++
			if c.closes+c.errs+c.n > 0 {
				c.bad = "OnOpen was not the first callback"
			}
			c.mu.Unlock()
		},
		OnMessage: func(h *websocket.Handler, m []byte) {
			c.mu.Lock()
			if c.open == 0 {
				c.bad = "OnMessage before OnOpen"
			}
			c.got[string(m)]++
			c.n++
			c.mu.Unlock()
			if c.reply {
				h.Send(m)
			}
		},
		OnError: func(h *websocket.Handler, err error) {
			c.mu.Lock()
			c.errs++
			if err == nil {
				c.bad = "OnError with a nil error"
			}
			c.mu.Unlock()
		},
		OnClose: func(h *websocket.Handler) {
			c.mu.Lock()
			c.closes++
			if c.closes == 1 {
				close(c.done)
			}
			c.mu.Unlock()
		}}
}

func (c *client) until(cond func() bool) bool {
	for t0 := time.Now(); ; time.Sleep(20 * time.Microsecond) {
		c.mu.Lock()
		ok := cond()
		c.mu.Unlock()
		if ok {
			return true
		}
		if time.Since(t0) > wait {
			return false
		}
	}
}

// finish waits for the end and checks the callbacks; want are the messages that have to arrive.
func (c *client) finish(t *run.T, what string, want [][]byte, user bool) {
	select {
	case <-c.done:
	case <-time.After(wait):
		t.Fail("%s: OnClose was not called within %v after the end", what, wait)
	}
	c.messages(t, what, want)
	if !user && !c.until(func() bool { return c.errs > 0 }) {
		t.Fail("%s: OnError was not called", what)
	}
	time.Sleep(50 * time.Microsecond)
	c.mu.Lock()
	open, closes, errs, bad := c.open, c.closes, c.errs, c.bad
	c.mu.Unlock()
	if open != 1 || closes != 1 || errs > 1 || bad != "" {
		t.Fail("%s: OnOpen %d times, OnClose %d times, OnError %d times; %s", what, open, closes, errs, bad)
	}
	if c.h.Send([]byte("late")) == nil || c.h.Error() == nil {
		t.Fail("%s: Send succeeded after the end, or Error is nil", what)
	}
	c.h.Close()
}

func (c *client) messages(t *run.T, what string, want [][]byte) {
	if !c.until(func() bool { return c.n >= len(want) }) {
		t.Fail("%s: %d of %d messages arrived", what, c.n, len(want))
	}
	exp := map[string]int{}
	for _, m := range want {
		exp[string(m)]++
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	for m, n := range c.got {
		if exp[m] != n {
			if len(m) > 40 {
				m = fmt.Sprintf("(%d bytes) %.20q...", len(m), m)
			}
			t.Fail("%s: message %q arrived %d times, it was sent %d times", what, m, n, exp[m])
		}
	}
	if c.n != len(want) {
		t.Fail("%s: %d messages arrived, %d were sent", what, c.n, len(want))
	}
}

func pattern(n, seed int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8*3 + i>>16 + seed)
	}
	return b
}

type server struct {
	*netx.Server
	next func() *peer
	tls  bool
}

func newServer(tls bool) *server {
	s := &server{tls: tls}
	var c *netx.Cert
	if tls {
		c = cert
	}
	s.Server = netx.NewServer(c, func(c net.Conn, raw *netx.Conn) { s.next().handle(c, raw) })
	return s
}

func (s *server) url() string {
	if s.tls {
		return "wss://" + s.Addr() + "/x?y=z"
	}
	return "ws://" + s.Addr() + "/x?y=z"
}

func (s *server) one(p *peer) { s.next = func() *peer { return p } }

func (s *server) over(t *run.T, what string) {
	if !s.Wait(wait) {
		t.Fail("%s: the connection is still open %v after the end", what, wait)
	}
}

func c28(thorough bool) (l []run.Scenario) {
	add := func(name string, f func(t *run.T)) { l = append(l, run.Scenario{Name: "nat/" + name, Nat: f}) }
	sizes := []int{0, 1, 2, 124, 125, 126, 127, 128, 1000, 4095, 4096, 4097, 32767, 65534, 65535, 65536, 65537, 1 << 20}
	for _, tls := range []bool{false, true} {
		sc := map[bool]string{false: "ws", true: "wss"}[tls]
		dial := func(t *run.T, s *server, c *client, what string) *websocket.Handler {
			h, err := websocket.NewHandler(c.cfg(s.url()))
			if err != nil || h == nil {
				t.Fail("%s: NewHandler returned %v, %v", what, h, err)
			}
			c.h = h
			return h
		}
		// messages of all sizes in both directions, echoed by the client or not
		add("sizes/"+sc, func(t *run.T) {
			s := newServer(tls)
			defer s.Close()
			for _, a := range sizes {
				for _, b := range sizes {
					if a+b > 70000 && a != b && !(a < 2 || b < 2) && !thorough {
						continue
					}
					for _, op := range []byte{1, 2} {
						for _, reply := range []bool{false, true} {
							what := fmt.Sprintf("messages of %d and %d bytes (opcode %d, reply %v)", a, b, op, reply)
							ma, mb := pattern(a, 1), pattern(b, 2)
							if op == 1 {
								ma, mb = bytes.Repeat([]byte("a"), a), bytes.Repeat([]byte("b"), b)
							}
							p := &peer{script: []string{string(frame(op, ma)), string(frame(op, mb))}, hold: make(chan struct{})}
							s.one(p)
							c := &client{reply: reply}
							h := dial(t, s, c, what)
							want := [][]byte{ma, mb}
							c.messages(t, what, want)
							send := [][]byte{mb, ma, []byte("x")}
							for _, m := range send {
								k := bytes.Clone(m)
								if err := h.Send(k); err != nil {
									t.Fail("%s: Send of %d bytes: %v", what, len(m), err)
								}
								if !bytes.Equal(k, m) {
									t.Fail("%s: Send changed its argument", what)
								}
							}
							if reply {
								send = append(send, ma, mb)
							}
							exp := map[string]int{}
							for _, m := range send {
								exp[string(m)]++
							}
							if !c.until(func() bool { p.mu.Lock(); defer p.mu.Unlock(); return len(p.got) >= len(send) || p.bad != "" }) {
								t.Fail("%s: the server received %d of %d messages", what, len(p.got), len(send))
							}
							p.mu.Lock()
							for _, m := range p.got {
								exp[string(m)]--
								if exp[string(m)] < 0 {
									t.Note("%s: the server received a message of %d bytes that was not sent, or twice", what, len(m))
								}
							}
							bad := p.bad
							p.mu.Unlock()
							t.Check()
							if bad != "" {
								t.Fail("%s: %s", what, bad)
							}
							close(p.hold)
							c.finish(t, what, want, false)
							s.over(t, what)
							t.Case(2 + len(send))
						}
					}
				}
			}
		})
		// megabytes, up to the 32 that golang.org/x/net accepts
		add("large/"+sc, func(t *run.T) {
			s := newServer(tls)
			defer s.Close()
			for _, n := range []int{2 << 20, 3<<20 + 1, 4 << 20, 4<<20 + 1, 5 << 20, 8<<20 + 1, 10<<20 + 1, 16 << 20, 16<<20 + 1, 31 << 20, 32 << 20} {
				if !t.More() {
					return
				}
				what := fmt.Sprintf("messages of %d bytes", n)
				m := pattern(n, n%100)
				p := &peer{script: []string{string(frame(2, m)), string(frame(1, []byte("after")))}, hold: make(chan struct{})}
				s.one(p)
				c := &client{}
				h := dial(t, s, c, what)
				want := [][]byte{m, []byte("after")}
				c.messages(t, what, want)
				for _, x := range [][]byte{m, []byte("then")} {
					if err := h.Send(x); err != nil {
						t.Fail("%s: Send of %d bytes: %v", what, len(x), err)
					}
				}
				if !c.until(func() bool { p.mu.Lock(); defer p.mu.Unlock(); return len(p.got) >= 2 || p.bad != "" }) {
					t.Fail("%s: the server received %d of 2 messages", what, len(p.got))
				}
				p.mu.Lock()
				if p.bad != "" || !bytes.Equal(p.got[0], m) || string(p.got[1]) != "then" {
					t.Note("%s: the server received %d bytes and %q; %s", what, len(p.got[0]), p.got[1], p.bad)
				}
				p.mu.Unlock()
				t.Check()
				close(p.hold)
				c.finish(t, what, want, false)
				s.over(t, what)
				t.Case(4)
			}
		})
		// all orders of messages, pings and pongs, ended by a close frame or without one
		for end := 0; end < 3; end++ {
			add(fmt.Sprintf("orders/%s/end %d", sc, end), func(t *run.T) {
				s := newServer(tls)
				defer s.Close()
				depth := 4
				if thorough {
					depth = 5
				}
				kinds := []string{"a", "b", "e", "p", "o"}
				frames := map[string][]byte{"a": frame(1, []byte("alpha")), "b": frame(2, pattern(200, 3)), "e": frame(1, nil), "p": frame(9, []byte("ping")), "o": frame(10, nil)}
				data := map[string][]byte{"a": []byte("alpha"), "b": pattern(200, 3), "e": {}}
				each := func(seq []int) {
					if !t.More() {
						return
					}
					p := &peer{}
					var want [][]byte
					names := ""
					var one string
					for _, k := range seq {
						one += string(frames[kinds[k]])
						names += kinds[k]
						if d, ok := data[kinds[k]]; ok {
							want = append(want, d)
						}
						if end != 1 {
							p.script = append(p.script, one)
							one = ""
						}
					}
					if one != "" {
						p.script = []string{one}
					}
					if end == 2 {
						p.script = append(p.script, string(frame(8, []byte{3, 232})))
					}
					s.one(p)
					c := &client{}
					dial(t, s, c, names)
					c.finish(t, fmt.Sprintf("%q, end %d", names, end), want, false)
					s.over(t, names)
					t.Case(len(seq))
				}
				for n := 0; n <= depth; n++ {
					comb.Sequences(t, n, len(kinds), each)
				}
			})
		}
		// the user closes
		add("close/"+sc, func(t *run.T) {
			s := newServer(tls)
			defer s.Close()
			for n := 0; n < 4; n++ {
				for sends := 0; sends < 3; sends++ {
					for closes := 1; closes < 4; closes++ {
						what := fmt.Sprintf("%d messages, %d sends, %d times Close", n, sends, closes)
						p := &peer{hold: make(chan struct{})}
						var want [][]byte
						for i := 0; i < n; i++ {
							p.script = append(p.script, string(frame(1, []byte(fmt.Sprint("m", i)))))
							want = append(want, []byte(fmt.Sprint("m", i)))
						}
						s.one(p)
						c := &client{}
						h := dial(t, s, c, what)
						c.messages(t, what, want)
						for i := 0; i < sends; i++ {
							if err := h.Send([]byte(fmt.Sprint("s", i))); err != nil {
								t.Fail("%s: Send: %v", what, err)
							}
						}
						for i := 0; i < closes; i++ {
							h.Close()
							if h.Send([]byte("late")) == nil {
								t.Fail("%s: Send succeeded after Close", what)
							}
						}
						c.finish(t, what, want, true)
						s.over(t, what)
						if len(p.got) != sends || p.bad != "" {
							t.Fail("%s: the server received %d messages; %s", what, len(p.got), p.bad)
						}
						for i, m := range p.got {
							if string(m) != fmt.Sprint("s", i) {
								t.Fail("%s: the server received %q as message %d", what, m, i)
							}
						}
						t.Case(n + sends + closes)
					}
				}
			}
		})
		// cut at every byte of what the server sends
		cut := func(inside bool) func(t *run.T) {
			return func(t *run.T) {
				s := newServer(tls)
				defer s.Close()
				truncated := ""
				m1, m2 := []byte("first message"), pattern(130, 9)
				base := int64(-1)
				for k := int64(0); ; k++ {
					if !t.More() {
						return
					}
					what := fmt.Sprintf("connection cut after %d bytes of the server's stream", k)
					s.SetLimit(k, false)
					p := &peer{script: []string{string(frame(1, m1)), string(frame(2, m2)), string(frame(8, []byte{3, 232}))}}
					s.one(p)
					c := &client{}
					h, err := websocket.NewHandler(c.cfg(s.url()))
					if err != nil {
						s.over(t, what)
						if h != nil {
							t.Fail("%s: NewHandler returned a handler and %v", what, err)
						}
						if c.open+c.closes+c.errs+c.n > 0 {
							t.Fail("%s: callbacks without a connection", what)
						}
						if len(p.sent) > 0 && p.sent[0] <= k {
							t.Fail("%s: NewHandler returned %v, although the handshake was complete", what, err)
						}
						t.Case(1)
						continue
					}
					c.h = h
					select {
					case <-c.done:
					case <-time.After(wait):
						t.Fail("%s: OnClose was not called", what)
					}
					s.over(t, what)
					if len(p.sent) < 4 || p.sent[0] > k {
						t.Fail("%s: NewHandler returned a handler although the handshake was not complete", what)
					}
					if base < 0 {
						base = p.sent[0]
					}
					var want [][]byte
					if p.sent[1] <= k {
						want = append(want, m1)
					}
					if p.sent[2] <= k {
						want = append(want, m2)
					}
					in := !tls && (k >= p.sent[0]+2 && k < p.sent[1] || k >= p.sent[1]+4 && k < p.sent[2])
					if in != inside && k <= p.sent[3] {
						t.Case(1)
						continue
					}
					if in {
						// the known finding is only that a prefix of the message arrives as a message
						part := string(m1[:max(0, min(len(m1), int(k-p.sent[0]-2)))])
						if len(want) == 1 {
							part = string(m2[:k-p.sent[1]-4])
						}
						c.until(func() bool { return c.n > len(want) })
						c.mu.Lock()
						if c.got[part] == 1 {
							c.got[part] = 0
							delete(c.got, part)
							c.n--
							if truncated == "" {
								truncated = fmt.Sprintf("a message of which only a part arrived is delivered (%s, %q)", what, part)
							}
						}
						c.mu.Unlock()
					}
					c.finish(t, what, want, false)
					t.Case(1)
					if k > p.sent[3]+2 {
						break
					}
				}
				if truncated != "" {
					t.Fail("%s", truncated)
				}
			}
		}
		add("cut/"+sc, cut(false))
		if !tls {
			add("cut-inside-payload/"+sc, cut(true))
		}
		// broken handshakes
		add("handshake/"+sc, func(t *run.T) {
			s := newServer(tls)
			defer s.Close()
			hd := func(status string, h ...string) func(r *http.Request) string {
				return func(r *http.Request) string {
					return status + "\r\n" + strings.ReplaceAll(strings.Join(append(h, ""), "\r\n"), "KEY", accept(r)) + "\r\n" + string(frame(1, []byte("x")))
				}
			}
			up, co, ac := "Upgrade: websocket", "Connection: Upgrade", "Sec-WebSocket-Accept: KEY"
			for i, a := range []func(r *http.Request) string{
				hd("HTTP/1.1 200 OK", up, co, ac), hd("HTTP/1.1 404 Not Found", up, co, ac), hd("HTTP/1.1 101 X", co, ac), hd("HTTP/1.1 101 X", up, ac), hd("HTTP/1.1 101 X", up, co),
				hd("HTTP/1.1 101 X", up, co, "Sec-WebSocket-Accept: AAAA"), hd("HTTP/1.1 101 X", up, co, "Sec-WebSocket-Accept: kKEY"), hd("garbage"), hd(""), hd("HTTP/1.1 101 X", "Upgrade: other", co, ac),
				hd("HTTP/1.1 101 X", up, "Connection: close", ac), hd("HTTP/1.1 301 X", "Location: /"), hd("HTTP/1.1 401 X", up, co, ac), hd("HTTP/1.1 500 X", up, co, ac)} {
				p := &peer{answer: a}
				s.one(p)
				c := &client{}
				h, err := websocket.NewHandler(c.cfg(s.url()))
				if err == nil || h != nil {
					t.Fail("broken handshake %d: NewHandler returned %v, %v", i, h, err)
				}
				if c.open+c.closes+c.errs+c.n > 0 {
					t.Fail("broken handshake %d: callbacks without a connection", i)
				}
				s.over(t, "broken handshake")
				t.Case(1)
			}
		})
		add("unreachable/"+sc, func(t *run.T) {
			free := netx.FreePort()
			for _, to := range []time.Duration{0, 5 * time.Second} {
				for _, u := range []string{sc + "://" + free + "/", sc + "://127.0.0.1:99999/", sc + "://", "http://" + free, "https://" + free, "", free, ":", "ws", "wss", "tcp://" + free} {
					for _, o := range []string{"http://127.0.0.1/", "", "x"} {
						c := &client{}
						cfg := c.cfg(u)
						cfg.TimeOut, cfg.Origin = to, o
						h, err := websocket.NewHandler(cfg)
						if err == nil || h != nil || c.open+c.closes+c.errs+c.n > 0 {
							t.Fail("url %q, origin %q: NewHandler returned %v, %v", u, o, h, err)
						}
						t.Case(1)
					}
				}
			}
			// the other protocol
			s := newServer(!tls)
			s.next = func() *peer { return &peer{} }
			c := &client{}
			cfg := c.cfg(sc + "://" + s.Addr() + "/")
			if h, err := websocket.NewHandler(cfg); err == nil || h != nil || c.open+c.closes+c.errs+c.n > 0 {
				t.Fail("%s to a server of the other protocol: NewHandler returned %v, %v", sc, h, err)
			}
			s.over(t, "other protocol")
			s.Close()
			t.Case(1)
		})
	}
	// which servers are believed
	add("certificates", func(t *run.T) {
		dir := t.Dir()
		file := func(name string, b []byte) string {
			f := filepath.Join(dir, name)
			if err := os.WriteFile(f, b, 0600); err != nil {
				t.Fail("%v", err)
			}
			return f
		}
		type src struct {
			file  string
			bytes []byte
			good  bool // the server's certificate
			valid bool
		}
		srcs := map[string]src{
			"right":   {file("right", cert.Pem), cert.Pem, true, true},
			"wrong":   {file("wrong", other.Pem), other.Pem, false, true},
			"both":    {file("both", append(bytes.Clone(other.Pem), cert.Pem...)), append(bytes.Clone(other.Pem), cert.Pem...), true, true},
			"garbage": {file("garbage", []byte("no pem")), []byte("no pem"), false, false},
			"empty":   {file("empty", nil), nil, false, false},
			"half":    {file("half", cert.Pem[:len(cert.Pem)/2]), cert.Pem[:len(cert.Pem)/2], false, false},
		}
		names := []string{"right", "wrong", "both", "garbage", "empty", "half"}
		// the machine itself trusts this server, so that certificates which are asked for and silently left out show
		os.Setenv("SSL_CERT_FILE", srcs["right"].file)
		os.Setenv("SSL_CERT_DIR", t.Dir())
		s := newServer(true)
		defer s.Close()
		try := func(what string, mod func(c *websocket.Config), ok bool) {
			p := &peer{script: []string{string(frame(1, []byte("hello")))}}
			s.one(p)
			c := &client{}
			cfg := c.cfg(s.url())
			mod(cfg)
			h, err := websocket.NewHandler(cfg)
			if !ok {
				if h != nil || err == nil || c.open+c.n+c.closes+c.errs > 0 {
					t.Fail("%s: NewHandler returned %v, %v for a server that the certificates do not vouch for", what, h, err)
				}
			} else {
				if h == nil || err != nil {
					t.Fail("%s: NewHandler returned %v, %v", what, h, err)
				}
				c.h = h
				c.finish(t, what, [][]byte{[]byte("hello")}, false)
			}
			s.over(t, what)
			t.Case(1)
		}
		try("no certificates", func(c *websocket.Config) {}, true)
		try("no certificates, timeout", func(c *websocket.Config) { c.TimeOut = 10 * time.Second }, true)
		try("empty list of files", func(c *websocket.Config) { c.CertFiles = []string{} }, false)
		try("empty list of bytes", func(c *websocket.Config) { c.CertBytes = [][]byte{} }, false)
		try("no such file", func(c *websocket.Config) { c.CertFiles = []string{filepath.Join(dir, "none")} }, false)
		try("right file and no such file", func(c *websocket.Config) { c.CertFiles = []string{srcs["right"].file, filepath.Join(dir, "none")} }, false)
		for n := 1; n <= 3; n++ {
			comb.Sequences(t, n, len(names), func(seq []int) {
				var fs []string
				var bs [][]byte
				good, valid := false, true
				what := ""
				for _, i := range seq {
					x := srcs[names[i]]
					fs, bs = append(fs, x.file), append(bs, x.bytes)
					good, valid = good || x.good, valid && x.valid
					what += names[i] + " "
				}
				for _, to := range []time.Duration{0, 10 * time.Second} {
					try("files "+what, func(c *websocket.Config) { c.CertFiles, c.TimeOut = fs, to }, good && valid)
					try("bytes "+what, func(c *websocket.Config) { c.CertBytes, c.TimeOut = bs, to }, good && valid)
				}
			})
		}
	})
	return
}
