// Package websocket is golang.org/x/net/websocket with a peer played by the scenario.
package websocket

import (
	"context"
	"crypto/tls"
	"encoding/json"
	"errors"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"time"

	"verif.local/v/mc"
	vtime "verif.local/v/shim/time"
)

const (
	ProtocolVersionHybi13    = 13
	ProtocolVersionHybi      = ProtocolVersionHybi13
	SupportedProtocolVersion = "13"
	ContinuationFrame        = 0
	TextFrame                = 1
	BinaryFrame              = 2
	CloseFrame               = 8
	PingFrame                = 9
	PongFrame                = 10
	UnknownFrame             = 255
	DefaultMaxPayloadBytes   = 32 << 20
)

type ProtocolError struct{ ErrorString string }

func (err *ProtocolError) Error() string { return err.ErrorString }

var (
	ErrBadScheme          = &ProtocolError{"bad scheme"}
	ErrBadStatus          = &ProtocolError{"bad status"}
	ErrBadUpgrade         = &ProtocolError{"missing or bad upgrade"}
	ErrBadFrame           = &ProtocolError{"bad frame"}
	ErrNotWebSocket       = &ProtocolError{"not websocket protocol"}
	ErrNotSupported       = &ProtocolError{"not supported"}
	ErrFrameTooLarge      = errors.New("websocket: frame payload size exceeds limit")
	ErrNotImplemented     = &ProtocolError{"not implemented"}
	ErrBadProtocolVersion = &ProtocolError{"bad protocol version"}
)

type Config struct {
	Location  *url.URL
	Origin    *url.URL
	Protocol  []string
	Version   int
	TlsConfig *tls.Config
	Header    http.Header
	Dialer    *net.Dialer
}

func NewConfig(server, origin string) (config *Config, err error) {
	config = &Config{Version: ProtocolVersionHybi13, Header: http.Header{}}
	if config.Location, err = url.ParseRequestURI(server); err != nil {
		return
	}
	config.Origin, err = url.ParseRequestURI(origin)
	return
}

// Server is the peer of a connection.
type Server struct {
	obj, oobj int
	vin, vout mc.VC
	queue     []Frame
	ended     bool // the server has closed or failed
	err       error
	closed    bool // the client has closed
	dead      bool // reads of the client fail for good
	Got       [][]byte
	GotAt     []bool // whether the server was still there
	Closes    int
	KeepLocal bool  // frames already received may still be read after the client's close
	LoseSends bool  // a send after the server's end may succeed
	rdl, wdl  int64 // deadlines on the virtual clock, 0: none
}

type Frame struct {
	Text bool
	Data []byte
}

// OnDial decides what dialling yields.
var OnDial func(c *Config) (*Server, error)

func init() { mc.OnReset(func() { OnDial = nil }) }

func NewServer() *Server {
	return &Server{obj: mc.E.NewObj(), oobj: mc.E.NewObj()}
}

func (s *Server) in() mc.Foot  { return mc.Foot{Obj: s.obj, W: true} }
func (s *Server) out() mc.Foot { return mc.Foot{Obj: s.oobj, W: true} }

// Send is a message of the server; it is lost when the client has closed.
func (s *Server) Send(text bool, data string) {
	mc.Point("server sends "+data, nil, s.in())
	if !s.ended {
		s.queue = append(s.queue, Frame{text, []byte(data)})
	}
}

// End ends the connection from the server; err is what the client's reads then return (io.EOF: an orderly end).
func (s *Server) End(err error) {
	mc.Point("server ends: "+err.Error(), nil, s.in(), s.out())
	if !s.ended {
		s.ended, s.err = true, err
	}
}

// Gone tells whether the client has closed the connection.
func (s *Server) Gone() bool { return s.closed }

type Conn struct {
	s               *Server
	cfg             *Config
	rbuf            []byte
	PayloadType     byte
	MaxPayloadBytes int
}

func DialConfig(c *Config) (*Conn, error) {
	if c.Location == nil || c.Origin == nil {
		return nil, errors.New("websocket: no location or origin")
	}
	if c.Version != ProtocolVersionHybi13 {
		return nil, ErrBadProtocolVersion
	}
	mc.Point("dial", nil, mc.Foot{Obj: -1, W: true})
	s, err := OnDial(c)
	if err != nil {
		return nil, err
	}
	return &Conn{s: s, cfg: c, PayloadType: TextFrame}, nil
}

func (c *Config) DialContext(ctx context.Context) (*Conn, error) { return DialConfig(c) }

func Dial(u, protocol, origin string) (*Conn, error) {
	c, err := NewConfig(u, origin)
	if err != nil {
		return nil, err
	}
	if protocol != "" {
		c.Protocol = []string{protocol}
	}
	return DialConfig(c)
}

var errClosed = &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}

func (ws *Conn) frame() (f Frame, err error) {
	s := ws.s
	mc.Point("receive", func() bool { return len(s.queue) > 0 || s.ended || s.closed || s.dead || past(s.rdl) }, s.in())
	s.vin.Acquire()
	if past(s.rdl) && !s.closed {
		return f, &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}
	}
	if s.dead {
		return f, errClosed
	}
	if s.closed && (len(s.queue) == 0 || !s.KeepLocal || mc.Choose(2) == 0) {
		s.dead = true
		return f, errClosed
	}
	if len(s.queue) > 0 {
		f = s.queue[0]
		s.queue = s.queue[1:]
		return f, nil
	}
	return f, s.err
}

func (ws *Conn) put(data []byte) error {
	s := ws.s
	mc.Point("send", nil, s.out())
	s.vout.Acquire()
	s.vout.Release()
	if s.closed {
		return &net.OpError{Op: "write", Net: "tcp", Err: net.ErrClosed}
	}
	if past(s.wdl) {
		return &net.OpError{Op: "write", Net: "tcp", Err: os.ErrDeadlineExceeded}
	}
	if s.ended && (!s.LoseSends || mc.Choose(2) == 0) {
		return &net.OpError{Op: "write", Net: "tcp", Err: errors.New("broken pipe")}
	}
	s.Got = append(s.Got, append([]byte{}, data...))
	s.GotAt = append(s.GotAt, !s.ended)
	return nil
}

func (ws *Conn) Read(msg []byte) (n int, err error) {
	for len(ws.rbuf) == 0 {
		f, err := ws.frame()
		if err != nil {
			return 0, err
		}
		ws.rbuf = f.Data
	}
	n = copy(msg, ws.rbuf)
	ws.rbuf = ws.rbuf[n:]
	return n, nil
}

func (ws *Conn) Write(msg []byte) (n int, err error) {
	if err = ws.put(msg); err != nil {
		return 0, err
	}
	return len(msg), nil
}

func (ws *Conn) Close() error {
	s := ws.s
	mc.Point("close", nil, s.in(), s.out())
	s.vout.Acquire()
	s.vout.Release()
	s.vin.Release()
	s.Closes++
	if s.closed {
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	s.closed = true
	return nil
}

func (ws *Conn) IsClientConn() bool   { return true }
func (ws *Conn) IsServerConn() bool   { return false }
func (ws *Conn) LocalAddr() net.Addr  { return &net.TCPAddr{} }
func (ws *Conn) RemoteAddr() net.Addr { return &net.TCPAddr{} }
func (ws *Conn) SetDeadline(t time.Time) error {
	ws.SetReadDeadline(t)
	return ws.SetWriteDeadline(t)
}
func (ws *Conn) SetReadDeadline(t time.Time) error  { return deadline(&ws.s.rdl, t, ws.s.in()) }
func (ws *Conn) SetWriteDeadline(t time.Time) error { return deadline(&ws.s.wdl, t, ws.s.out()) }

func past(d int64) bool { return d != 0 && mc.Clock() >= d }

func deadline(d *int64, t time.Time, f mc.Foot) error {
	mc.Point("set deadline", nil, f)
	*d = 0
	if !t.IsZero() {
		left := max(int64(vtime.Until(t)), 0)
		*d = mc.Clock() + left
		if *d == 0 {
			*d = 1
		}
		mc.NewTimer(left, func(int64) {})
	}
	return nil
}

func (ws *Conn) Config() *Config        { return ws.cfg }
func (ws *Conn) Request() *http.Request { return nil }

var _ io.ReadWriteCloser = (*Conn)(nil)

type Codec struct {
	Marshal   func(v any) (data []byte, payloadType byte, err error)
	Unmarshal func(data []byte, payloadType byte, v any) (err error)
}

func (cd Codec) Send(ws *Conn, v any) (err error) {
	data, _, err := cd.Marshal(v)
	if err != nil {
		return err
	}
	return ws.put(data)
}

func (cd Codec) Receive(ws *Conn, v any) (err error) {
	ws.rbuf = nil
	f, err := ws.frame()
	if err != nil {
		return err
	}
	limit := ws.MaxPayloadBytes
	if limit == 0 {
		limit = DefaultMaxPayloadBytes
	}
	if len(f.Data) > limit {
		return ErrFrameTooLarge
	}
	t := byte(BinaryFrame)
	if f.Text {
		t = TextFrame
	}
	return cd.Unmarshal(append([]byte{}, f.Data...), t, v)
}

func marshal(v any) (msg []byte, payloadType byte, err error) {
	switch data := v.(type) {
	case string:
		return []byte(data), TextFrame, nil
	case []byte:
		return data, BinaryFrame, nil
	}
	return nil, UnknownFrame, ErrNotSupported
}

func unmarshal(msg []byte, payloadType byte, v any) (err error) {
	switch data := v.(type) {
	case *string:
		*data = string(msg)
		return nil
	case *[]byte:
		*data = msg
		return nil
	}
	return ErrNotSupported
}

var Message = Codec{marshal, unmarshal}

var JSON = Codec{func(v any) (msg []byte, payloadType byte, err error) {
	msg, err = json.Marshal(v)
	return msg, TextFrame, err
}, func(msg []byte, payloadType byte, v any) (err error) { return json.Unmarshal(msg, v) }}
