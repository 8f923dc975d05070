package vrt

import (
	"context"
	"crypto/tls"
	"errors"
	"io"
	"log"
	"net"
	"net/http"
	"net/url"
	"runtime"
	"time"
)

// Transport replaces http.Transport: same configuration fields, virtual wire.
type Transport struct {
	Proxy                  func(*http.Request) (*url.URL, error)
	DialContext            func(ctx context.Context, network, addr string) (net.Conn, error)
	Dial                   func(network, addr string) (net.Conn, error)
	DialTLSContext         func(ctx context.Context, network, addr string) (net.Conn, error)
	DialTLS                func(network, addr string) (net.Conn, error)
	TLSClientConfig        *tls.Config
	TLSHandshakeTimeout    time.Duration
	DisableKeepAlives      bool
	DisableCompression     bool
	MaxIdleConns           int
	MaxIdleConnsPerHost    int
	MaxConnsPerHost        int
	IdleConnTimeout        time.Duration
	ResponseHeaderTimeout  time.Duration
	ExpectContinueTimeout  time.Duration
	MaxResponseHeaderBytes int64
	WriteBufferSize        int
	ReadBufferSize         int
	ForceAttemptHTTP2      bool
}

func (t *Transport) RoundTrip(r *http.Request) (*http.Response, error) { return roundTrip(r) }
func (t *Transport) CloseIdleConnections()                             {}

// Server replaces http.Server.
type Server struct {
	Addr              string
	Handler           http.Handler
	TLSConfig         *tls.Config
	ReadTimeout       time.Duration
	ReadHeaderTimeout time.Duration
	WriteTimeout      time.Duration
	IdleTimeout       time.Duration
	MaxHeaderBytes    int
	ErrorLog          *log.Logger
}

func (s *Server) ListenAndServe() error { return ListenAndServe(s.Addr, s.Handler) }
func (s *Server) Close() error          { return nil }
func (s *Server) Shutdown(ctx context.Context) error {
	return nil
}

func Handle(pattern string, h http.Handler) {
	w := Cur()
	w.mu.Lock()
	defer w.mu.Unlock()
	w.pendMux.Handle(pattern, h)
}

func HandleFunc(pattern string, f func(http.ResponseWriter, *http.Request)) {
	Handle(pattern, http.HandlerFunc(f))
}

func DefaultMux() *http.ServeMux { return Cur().pendMux }

// ListenAndServe registers the handlers registered since the previous call for
// the port (each entity is its own process in reality; the harness starts
// entities at distinct instants).
func ListenAndServe(addr string, h http.Handler) error {
	w := Cur()
	if w == nil {
		return errors.New("no controlled execution")
	}
	w.mu.Lock()
	if w.dead {
		w.mu.Unlock()
		runtime.Goexit()
	}
	if h == nil {
		h = w.pendMux
		w.pendMux = http.NewServeMux()
	}
	port := portOf(addr)
	if w.servers[port] != nil {
		w.mu.Unlock()
		return errors.New("listen tcp " + addr + ": bind: address already in use")
	}
	w.servers[port] = h
	w.mu.Unlock()
	<-w.closed
	runtime.Goexit()
	return nil
}

// Stall is the body of an answer that never comes to its end.
func (m *Msg) Stall(begin string) io.ReadCloser { return &stall{m, []byte(begin)} }

type stall struct {
	m     *Msg
	begin []byte
}

func (s *stall) Read(p []byte) (int, error) {
	if len(s.begin) > 0 {
		n := copy(p, s.begin)
		s.begin = s.begin[n:]
		return n, nil
	}
	select {
	case <-s.m.req.Context().Done():
		return 0, s.m.req.Context().Err()
	case <-Cur().closed:
		runtime.Goexit()
		return 0, nil
	}
}

func (s *stall) Close() error { return nil }
