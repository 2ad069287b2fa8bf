// Package tests is a stand-in for core-go's in-memory test network (real goroutines,
// real time). It is used only to run the repository's own suites for the packages that
// cannot be built without core-go; no check of /verif uses it.
package tests

import (
	"errors"
	"net"
	"sync"
	"time"

	"gitlab.com/alephledger/core-go/pkg/network"
)

type conn struct{ net.Conn }

func (c conn) Flush() error { return nil }

type server struct {
	dial   []chan net.Conn
	listen chan net.Conn
	to     time.Duration
	stop   chan struct{}
	once   sync.Once
}

type bufPipe struct {
	mu     sync.Mutex
	c      *sync.Cond
	buf    []byte
	closed bool
}

type end struct {
	net.Conn
	r, w *bufPipe
}

func newPipe() *bufPipe { p := &bufPipe{}; p.c = sync.NewCond(&p.mu); return p }

func (e *end) Read(b []byte) (int, error) {
	e.r.mu.Lock()
	defer e.r.mu.Unlock()
	for len(e.r.buf) == 0 && !e.r.closed {
		e.r.c.Wait()
	}
	if len(e.r.buf) == 0 {
		return 0, errors.New("EOF")
	}
	n := copy(b, e.r.buf)
	e.r.buf = e.r.buf[n:]
	return n, nil
}
func (e *end) Write(b []byte) (int, error) {
	e.w.mu.Lock()
	defer e.w.mu.Unlock()
	if e.w.closed {
		return 0, errors.New("closed")
	}
	e.w.buf = append(e.w.buf, b...)
	e.w.c.Broadcast()
	return len(b), nil
}
func (e *end) Close() error {
	for _, p := range []*bufPipe{e.r, e.w} {
		p.mu.Lock()
		p.closed = true
		p.c.Broadcast()
		p.mu.Unlock()
	}
	return nil
}

func (s *server) Dial(pid uint16) (network.Connection, error) {
	a, b := newPipe(), newPipe()
	select {
	case s.dial[pid] <- &end{r: b, w: a}:
		return conn{&end{r: a, w: b}}, nil
	case <-time.After(s.to):
		return nil, errors.New("timeout")
	}
}
func (s *server) Listen() (network.Connection, error) {
	select {
	case c := <-s.listen:
		return conn{c}, nil
	case <-time.After(s.to):
		return nil, errors.New("timeout")
	}
}
func (s *server) Stop() {}

// NewNetwork returns n connected servers.
func NewNetwork(n int, timeout time.Duration) []network.Server {
	chans := make([]chan net.Conn, n)
	for i := range chans {
		chans[i] = make(chan net.Conn)
	}
	out := make([]network.Server, n)
	for i := range out {
		out[i] = &server{dial: chans, listen: chans[i], to: timeout}
	}
	return out
}

// CloseNetwork stops the servers.
func CloseNetwork(s []network.Server) {
	for _, x := range s {
		x.Stop()
	}
}
