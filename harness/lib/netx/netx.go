// Package netx has the loopback servers of the native network checks.
package netx

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"net"
	"sync"
	"sync/atomic"
	"time"
)

// Cert is a self-signed certificate for 127.0.0.1.
type Cert struct {
	Pem []byte
	Tls tls.Certificate
}

func NewCert(cn string) *Cert {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: cn}, NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(240 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		IPAddresses: []net.IP{net.ParseIP("127.0.0.1")}, DNSNames: []string{"localhost"}}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	return &Cert{Pem: pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), Tls: tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}}
}

// Conn is a connection of which only the first Limit bytes written reach the client; then it is closed.
type Conn struct {
	net.Conn
	Limit   int64 // negative: none
	Reset   bool  // end with RST instead of FIN
	Written int64 // attempted
	mu      sync.Mutex
}

// Write pretends that everything was written, so that the server goes on as if nothing had happened.
func (c *Conn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	before := c.Written
	c.Written += int64(len(p))
	if c.Limit < 0 || c.Written < c.Limit {
		return c.Conn.Write(p)
	}
	if k := c.Limit - before; k > 0 {
		c.Conn.Write(p[:k])
	}
	if before <= c.Limit {
		c.Cut()
	}
	return len(p), nil
}

// Cut ends the connection.
func (c *Conn) Cut() {
	if t, ok := c.Conn.(*net.TCPConn); ok {
		if c.Reset {
			t.SetLinger(0)
			t.Close()
			return
		}
		t.CloseWrite() // nothing unread may turn this into a reset
	}
}

// Server accepts connections on loopback and hands them to Handle.
type Server struct {
	L      net.Listener
	Cert   *Cert
	mu     sync.Mutex
	Conns  int64
	Limit  int64
	Reset  bool
	Slow   time.Duration // before a connection is served
	Long   time.Duration // more time for a connection
	Handle func(c net.Conn, raw *Conn)
	wg     sync.WaitGroup
}

// NewServer starts a server; a nil cert means plain TCP.
func NewServer(cert *Cert, handle func(c net.Conn, raw *Conn)) *Server {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &Server{L: l, Cert: cert, Handle: handle, Limit: -1}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			atomic.AddInt64(&s.Conns, 1)
			s.wg.Add(1)
			s.mu.Lock()
			raw := &Conn{Conn: c, Limit: s.Limit, Reset: s.Reset}
			s.mu.Unlock()
			go func() {
				defer s.wg.Done()
				defer c.Close()
				c.SetDeadline(time.Now().Add(30*time.Second + s.Slow + s.Long))
				time.Sleep(s.Slow)
				if raw.Limit == 0 {
					raw.Cut()
				}
				var nc net.Conn = raw
				if s.Cert != nil {
					nc = tls.Server(raw, &tls.Config{Certificates: []tls.Certificate{s.Cert.Tls}, SessionTicketsDisabled: true})
				}
				s.Handle(nc, raw)
			}()
		}
	}()
	return s
}

// SetLimit cuts connections accepted from now on after n bytes.
func (s *Server) SetLimit(n int64, reset bool) {
	s.mu.Lock()
	s.Limit, s.Reset = n, reset
	s.mu.Unlock()
}

// Wait waits for the handlers to end and tells whether they did.
func (s *Server) Wait(d time.Duration) bool {
	done := make(chan bool)
	go func() { s.wg.Wait(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

func (s *Server) Close()       { s.L.Close() }
func (s *Server) Addr() string { return s.L.Addr().String() }

// FreePort is a port nobody listens on.
func FreePort() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().String()
}
