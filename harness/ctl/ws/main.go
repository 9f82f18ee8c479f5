// Controlled exploration of package websocket (C28): the server is played by the scenario.
package main

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/donnie4w/gofer/websocket"
	"verif.local/v/mc"
	"verif.local/v/run"
	vtime "verif.local/v/shim/time"
	vws "verif.local/v/shim/websocket"
)

func main() { run.Main(map[string]run.Maker{"C28": c28}) }

// script of the server: a, b, c: that message as a text frame, B: a binary one, e: an empty one,
// w: waits for a message of the client, L: nothing for two hours, C: orderly end, X: the connection breaks
type setup struct {
	script  string
	clients []string // s: Send, c: Close, r: Error, l: nothing for an hour
	timeout int      // Config.TimeOut in seconds
	open    string   // what OnOpen does
	message string   // what the first OnMessage does
	closing string   // what OnClose does
	errs    string   // what OnError does
	omit    string   // callbacks that are nil: O M C E
	keep    bool
	lose    bool
}

func (s setup) name() string {
	n := fmt.Sprintf("%q clients=%s", s.script, strings.Join(s.clients, "|"))
	for _, x := range []struct{ k, v string }{{"open", s.open}, {"message", s.message}, {"close", s.closing}, {"error", s.errs}, {"nil", s.omit}} {
		if x.v != "" {
			n += " " + x.k + "=" + x.v
		}
	}
	if s.timeout > 0 {
		n += fmt.Sprint(" timeout=", s.timeout)
	}
	if s.keep {
		n += " keep"
	}
	if s.lose {
		n += " lose"
	}
	return n
}

type world struct {
	e        *mc.Exec
	s        setup
	srv      *vws.Server
	h        *websocket.Handler
	opens    int
	any      bool
	closes   int
	errs     int
	got      map[string]int
	sends    int
	okSends  map[string]bool // successful before the server's end
	allSends map[string]bool
	ended    bool // server
	user     bool // a Close of the user was begun before OnClose
	sealed   bool // from here on Send has to fail
}

func (w *world) act(h *websocket.Handler, ops string) {
	for _, o := range ops {
		switch o {
		case 's':
			w.sends++
			m := fmt.Sprintf("s%d", w.sends)
			w.allSends[m] = true
			sealed := w.sealed
			buf := []byte(m)
			err := h.Send(buf)
			for i := range buf {
				buf[i] = '#'
			}
			if err == nil {
				if sealed {
					w.e.Fail("Send succeeded after the connection had ended")
				}
				w.okSends[m] = !w.ended
			}
		case 'c':
			if w.closes == 0 {
				w.user = true
			}
			h.Close()
			w.sealed = true
			if h.Error() == nil {
				w.e.Fail("Error returned nil after Close")
			}
		case 'l':
			vtime.Sleep(time.Hour)
		case 'm': // until all messages have been given to OnMessage
			w.e.Block("wait for all messages", func() bool {
				n := 0
				for _, k := range w.got {
					n += k
				}
				return n == len(strings.Trim(w.s.script, "CX"))
			})
		case 'k':
			w.e.Block("wait for OnClose", func() bool { return w.closes > 0 })
		case 'r':
			sealed := w.sealed
			if err := h.Error(); err == nil && sealed {
				w.e.Fail("Error returned nil after the connection had ended")
			} else if err != nil && !w.ended && !w.user {
				w.e.Fail("Error returned %v while the connection was open", err)
			}
		}
	}
}

func (w *world) first() {
	if w.opens == 0 && !strings.Contains(w.s.omit, "O") {
		w.e.Fail("a callback was called before OnOpen")
	}
}

func run1(e *mc.Exec, s setup) {
	w := &world{e: e, s: s, got: map[string]int{}, okSends: map[string]bool{}, allSends: map[string]bool{}}
	cfg := &websocket.Config{Url: "ws://h/p", Origin: "http://h", TimeOut: time.Duration(s.timeout) * time.Second}
	w.srv = vws.NewServer()
	w.srv.KeepLocal, w.srv.LoseSends = s.keep, s.lose
	dials := 0
	vws.OnDial = func(c *vws.Config) (*vws.Server, error) {
		dials++
		if dials > 1 {
			e.Fail("dialled twice")
		}
		if c.Location.String() != cfg.Url || c.Origin.String() != cfg.Origin {
			e.Fail("dialled %v with origin %v", c.Location, c.Origin)
		}
		e.Go("server", func() {
			for _, o := range s.script {
				switch o {
				case 'B':
					w.srv.Send(false, "B")
				case 'e':
					w.srv.Send(true, "")
				case 'w':
					e.Block("wait for a message", func() bool { return len(w.srv.Got) > 0 || w.srv.Gone() })
				case 'L':
					vtime.Sleep(2 * time.Hour)
				case 'C':
					w.ended = true
					w.srv.End(io.EOF)
				case 'X':
					w.ended = true
					w.srv.End(errors.New("connection reset"))
				default:
					w.srv.Send(true, string(o))
				}
			}
		})
		return w.srv, nil
	}
	has := func(c string) bool { return !strings.Contains(s.omit, c) }
	same := func(h *websocket.Handler) {
		if h == nil || w.h != nil && h != w.h {
			e.Fail("a callback got another handler")
		}
		w.h = h
	}
	if has("O") {
		cfg.OnOpen = func(h *websocket.Handler) {
			e.Yield() // a goroutine started before this call may run now
			same(h)
			w.opens++
			if w.opens > 1 {
				e.Fail("OnOpen was called %d times", w.opens)
			}
			e.Yield()
			w.act(h, s.open)
		}
	}
	if has("M") {
		cfg.OnMessage = func(h *websocket.Handler, msg []byte) {
			w.first()
			same(h)
			m := string(msg)
			if n := strings.Count(strings.ReplaceAll(s.script, "e", "\x00"), m); m != "" && n == 0 || len(m) > 1 {
				e.Fail("OnMessage got %q, which the server never sent", m)
			}
			w.got[m]++
			want := strings.Count(s.script, m)
			if m == "" {
				want = strings.Count(s.script, "e")
			}
			if w.got[m] > want {
				e.Fail("OnMessage got %q %d times, sent %d times", m, w.got[m], want)
			}
			first := !w.any
			w.any = true
			e.Yield()
			if string(msg) != m {
				e.Fail("the message given to OnMessage changed from %q to %q", m, msg)
			}
			if first {
				w.act(h, s.message)
			}
		}
	}
	if has("C") {
		cfg.OnClose = func(h *websocket.Handler) {
			w.first()
			same(h)
			w.closes++
			if w.closes > 1 {
				e.Fail("OnClose was called %d times", w.closes)
			}
			if !w.ended && !w.user {
				e.Fail("OnClose was called while the connection was open")
			}
			w.sealed = true
			if h.Error() == nil {
				e.Fail("Error returned nil in OnClose")
			}
			w.act(h, s.closing)
		}
	}
	if has("E") {
		cfg.OnError = func(h *websocket.Handler, err error) {
			w.first()
			same(h)
			w.errs++
			if err == nil {
				e.Fail("OnError was called with a nil error")
			}
			if w.errs > 1 {
				e.Fail("OnError was called %d times", w.errs)
			}
			if !w.ended && !w.user {
				e.Fail("OnError was called while the connection was open")
			}
			w.act(h, s.errs)
		}
	}
	h, err := websocket.NewHandler(cfg)
	if err != nil || h == nil {
		e.Fail("NewHandler returned %v, %v", h, err)
	}
	if has("O") && w.opens != 1 {
		e.Fail("OnOpen was called %d times when NewHandler returned", w.opens)
	}
	w.h = h
	for i, c := range s.clients {
		e.Go(fmt.Sprintf("client%d", i), func() { w.act(h, c) })
	}
	pause := int64(0)
	if strings.Contains(s.script+strings.Join(s.clients, ""), "L") || strings.Contains(strings.Join(s.clients, ""), "l") {
		pause = int64(9 * time.Hour)
	}
	e.Quiesce(pause)
	if b := e.Blocked(); len(b) > 0 {
		e.Fail("never returned: %v", b)
	}
	done := w.ended || w.user
	if done {
		if has("C") && w.closes != 1 {
			e.Fail("OnClose was called %d times after the end of the connection", w.closes)
		}
		if has("E") && w.errs != 1 && !w.user {
			e.Fail("OnError was called %d times after the server ended the connection", w.errs)
		}
		if n := e.Live(); n > 0 {
			e.Fail("%d goroutines of the handler are left after the end", n)
		}
		if !w.srv.Gone() {
			e.Fail("the connection ended and the client left its side open")
		}
		w.sealed = true
		w.act(h, "sr")
		h.Close()
		w.act(h, "sr")
		e.Quiesce(0)
		if has("C") && w.closes != 1 || w.errs > 1 {
			e.Fail("OnClose %d times, OnError %d times after another Close", w.closes, w.errs)
		}
	} else {
		if w.closes != 0 || w.errs != 0 || h.Error() != nil {
			e.Fail("the connection is open, but OnClose was called %d times, OnError %d times and Error is %v", w.closes, w.errs, h.Error())
		}
		w.act(h, "sr")
		if !w.okSends[fmt.Sprintf("s%d", w.sends)] {
			e.Fail("Send failed on an open connection")
		}
	}
	if has("M") && !w.user {
		for _, o := range s.script {
			m := string(o)
			if strings.Contains("wCXL", m) {
				continue
			}
			want := strings.Count(s.script, m)
			if m == "e" {
				m = ""
			}
			if w.got[m] != want {
				e.Fail("the server sent %q %d times, OnMessage got it %d times", m, want, w.got[m])
			}
		}
	}
	// the server's view
	seen := map[string]int{}
	for i, b := range w.srv.Got {
		m := string(b)
		if !w.allSends[m] {
			e.Fail("the server received %q, which was not sent", m)
		}
		seen[m]++
		if seen[m] > 1 {
			e.Fail("the server received %q twice", m)
		}
		_ = i
	}
	for m, before := range w.okSends {
		if before && seen[m] != 1 {
			e.Fail("Send of %q succeeded, the server received it %d times", m, seen[m])
		}
	}
}

func c28(thorough bool) (l []run.Scenario) {
	add := func(mx int, s setup) {
		l = append(l, run.Scenario{Name: s.name(), Max: mx, MaxDeep: mx + 2, Body: func(e *mc.Exec) { run1(e, s) }})
	}
	// scripts without and with an end, one or two client threads
	scripts := []string{"", "a", "ab", "e", "aeB", "C", "X", "aC", "aX", "abC", "BeX", "wC", "waX", "awC", "aaC", "eeX"}
	clients := [][]string{nil, {"s"}, {"c"}, {"r"}, {"ss"}, {"sc"}, {"cs"}, {"cc"}, {"rs"}, {"s", "s"}, {"s", "c"}, {"c", "c"}, {"r", "c"}, {"s", "r"}}
	for _, sc := range scripts {
		for _, c := range clients {
			sends := strings.Contains(strings.Join(c, ""), "s") || strings.Contains(strings.Join(c, ""), "c")
			if strings.Contains(sc, "w") && !sends {
				continue
			}
			mx := 2
			if len(sc) < 3 && len(c) < 2 {
				mx = 3
			}
			add(mx, setup{script: sc, clients: c})
		}
	}
	// what callbacks may do
	for _, sc := range []string{"a", "ab", "abC", "aX"} {
		for _, a := range []string{"s", "c", "sc", "cs"} {
			add(2, setup{script: sc, open: a})
			add(2, setup{script: sc, message: a})
			add(2, setup{script: sc, open: "s", message: a, clients: []string{"s"}})
			if sc[len(sc)-1] != 'a' && sc[len(sc)-1] != 'b' {
				add(2, setup{script: sc, closing: a})
				add(2, setup{script: sc, errs: a})
				add(1, setup{script: sc, closing: a, errs: a, message: "s"})
			}
			add(2, setup{script: sc, clients: []string{"c"}, closing: a})
			add(2, setup{script: sc, clients: []string{"c"}, errs: a})
		}
	}
	// a callback that goes on until others have been called
	for _, sc := range []string{"ab", "abC", "abX", "aeBC", "aaX"} {
		add(2, setup{script: sc, message: "m"})
		add(2, setup{script: sc, message: "m", clients: []string{"s"}})
		if strings.ContainsAny(sc, "CX") {
			add(2, setup{script: sc, message: "mk"})
			add(2, setup{script: sc, errs: "k"})
			add(2, setup{script: sc, message: "k", errs: "mk", clients: []string{"s"}})
		}
	}
	// callbacks that are not set
	for _, sc := range []string{"ab", "aC", "aX"} {
		for _, o := range []string{"O", "M", "C", "E", "OM", "CE", "OMCE"} {
			for _, c := range [][]string{nil, {"s"}, {"c"}} {
				add(2, setup{script: sc, omit: o, clients: c})
			}
		}
	}
	// the network: what was received may still be read after Close; what was sent into a dead connection may vanish
	for _, sc := range []string{"a", "ab", "aeC", "aX"} {
		for _, c := range [][]string{{"c"}, {"sc"}, {"s", "c"}, {"c", "c"}, {"ss"}} {
			add(2, setup{script: sc, clients: c, keep: true})
			add(2, setup{script: sc, clients: c, keep: true, lose: true})
		}
	}
	// long silences
	for _, sc := range []string{"L", "aL", "La", "aLb", "LC", "LX", "aLbC", "LwX", "LaLbC"} {
		for _, c := range [][]string{nil, {"s"}, {"lslr"}, {"sls", "l"}, {"lc"}} {
			if strings.Contains(sc, "w") && c == nil {
				continue
			}
			for _, to := range []int{0, 5} {
				add(1, setup{script: sc, clients: c, timeout: to})
			}
		}
	}
	// three client threads
	for _, sc := range []string{"a", "aC", "abX"} {
		add(1, setup{script: sc, clients: []string{"s", "s", "s"}})
		add(1, setup{script: sc, clients: []string{"s", "s", "c"}})
		add(1, setup{script: sc, clients: []string{"s", "c", "c"}})
	}
	// no handler when there is no connection
	for _, u := range []string{"", "http://h/p", "h/p", "//h", "ftp://h", "ws", "WS//h", "://", "wss", "xws://h"} {
		for _, dialErr := range []bool{false, true} {
			l = append(l, run.Scenario{Name: fmt.Sprintf("url %q dial error %v", u, dialErr), Body: func(e *mc.Exec) { refused(e, u, "http://h", dialErr) }})
		}
	}
	for _, u := range []string{"ws://h/p", "wss://h/p", "ws://", "ws://h:99999/"} {
		l = append(l, run.Scenario{Name: fmt.Sprintf("url %q not reached", u), Body: func(e *mc.Exec) { refused(e, u, "http://h", true) }})
	}
	for _, o := range []string{"", "h", "%zz"} {
		l = append(l, run.Scenario{Name: fmt.Sprintf("origin %q", o), Body: func(e *mc.Exec) { refused(e, "ws://h/p", o, true) }})
	}
	return
}

func refused(e *mc.Exec, u, origin string, dialErr bool) {
	vws.OnDial = func(c *vws.Config) (*vws.Server, error) {
		if dialErr {
			return nil, errors.New("refused")
		}
		return vws.NewServer(), nil
	}
	called := ""
	cfg := &websocket.Config{Url: u, Origin: origin,
		OnOpen:    func(*websocket.Handler) { called += "OnOpen " },
		OnClose:   func(*websocket.Handler) { called += "OnClose " },
		OnError:   func(*websocket.Handler, error) { called += "OnError " },
		OnMessage: func(*websocket.Handler, []byte) { called += "OnMessage " }}
	h, err := websocket.NewHandler(cfg)
	if err == nil || h != nil {
		e.Fail("NewHandler returned %v, %v", h, err)
	}
	e.Quiesce(0)
	if called != "" {
		e.Fail("without a connection %swere called", called)
	}
}
