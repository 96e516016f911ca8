package h

import (
	"bufio"
	"context"
	"errors"
	"io"
	"net"
	"net/http"
	"sync"
	"time"

	"github.com/redmaner/MaguroHTTP/tuna"
)

// addrConn gives a pipe the address of a client.
type addrConn struct {
	net.Conn
	remote string
}

type strAddr string

func (a strAddr) Network() string { return "tcp" }
func (a strAddr) String() string  { return string(a) }

func (c addrConn) RemoteAddr() net.Addr { return strAddr(c.remote) }

// Front is a real HTTP server (net/http) in front of a handler, with connections in memory.
type Front struct {
	ch     chan net.Conn
	once   sync.Once
	closed chan struct{}
	Srv    *http.Server
	open   sync.WaitGroup
}

// NewFront starts one.
func NewFront(hd http.Handler) *Front {
	f := newFront(hd)
	go f.Srv.Serve(f)
	return f
}

func newFront(hd http.Handler) *Front {
	f := &Front{ch: make(chan net.Conn), closed: make(chan struct{})}
	f.Srv = &http.Server{Handler: hd, ErrorLog: Quiet, ConnState: func(_ net.Conn, st http.ConnState) {
		if st == http.StateClosed || st == http.StateHijacked {
			f.open.Done()
		}
	}}
	return f
}

// Accept implements net.Listener.
func (f *Front) Accept() (net.Conn, error) {
	select {
	case c := <-f.ch:
		return c, nil
	case <-f.closed:
		return nil, errors.New("closed")
	}
}

// Close implements net.Listener.
func (f *Front) Close() error { f.once.Do(func() { close(f.closed) }); return nil }

// Addr implements net.Listener.
func (f *Front) Addr() net.Addr { return strAddr("front") }

// Dial connects as a client with the given address.
func (f *Front) Dial(remote string) net.Conn {
	a, b := net.Pipe()
	f.open.Add(1)
	f.ch <- addrConn{b, remote}
	return a
}

// Drained waits until the server is done with every connection.
func (f *Front) Drained() { f.open.Wait() }

// Stop ends the server.
func (f *Front) Stop() { f.Srv.Close() }

// Answer is what a client read from its connection.
type Answer struct {
	Status int
	Header http.Header
	Body   []byte
	Err    error // reading failed or ended early
}

// ReadAnswer reads one response.
func ReadAnswer(br *bufio.Reader, method string) Answer {
	resp, err := http.ReadResponse(br, &http.Request{Method: method})
	for err == nil && resp.StatusCode >= 100 && resp.StatusCode < 200 && resp.StatusCode != 101 {
		resp, err = http.ReadResponse(br, &http.Request{Method: method})
	}
	if err != nil {
		return Answer{Err: err}
	}
	b, err := io.ReadAll(resp.Body)
	return Answer{resp.StatusCode, resp.Header, b, err}
}

// Dialer replaces the way a server reaches the hosts it proxies to.
func Dialer(s *tuna.Server, dial func(ctx context.Context, network, addr string) (net.Conn, error)) *http.Transport {
	t, ok := s.Transport.(*http.Transport)
	if !ok {
		t = &http.Transport{ResponseHeaderTimeout: time.Duration(s.Cfg.Core.ReadHeaderTimeout) * time.Second}
		s.Transport = t
	}
	t.DialContext = dial
	t.Dial = nil
	return t
}
