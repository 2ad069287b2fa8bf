package @NAME@

import (
	"errors"
	"io"
	stdsync "sync"
	"time"

	"gitlab.com/alephledger/core-go/pkg/network"
)

// pipe is one direction of an in-memory connection with a bounded buffer.
type pipe struct {
	mu     stdsync.Mutex
	c      *stdsync.Cond
	buf    []byte
	cap    int
	chunk  int // most bytes one Read returns
	closed bool
}

func newPipe(capacity, chunk int) *pipe {
	p := &pipe{cap: capacity, chunk: chunk}
	p.c = stdsync.NewCond(&p.mu)
	return p
}

func (p *pipe) read(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for len(p.buf) == 0 {
		if p.closed {
			return 0, io.EOF
		}
		p.c.Wait()
	}
	if len(b) > p.chunk {
		b = b[:p.chunk]
	}
	n := copy(b, p.buf)
	p.buf = p.buf[n:]
	p.c.Broadcast()
	return n, nil
}

func (p *pipe) write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	n := 0
	for n < len(b) {
		if p.closed {
			return n, errors.New("broken connection")
		}
		k := p.cap - len(p.buf)
		if k == 0 {
			p.c.Wait()
			continue
		}
		if k > len(b)-n {
			k = len(b) - n
		}
		p.buf = append(p.buf, b[n:n+k]...)
		n += k
		p.c.Broadcast()
	}
	return n, nil
}

func (p *pipe) close() {
	p.mu.Lock()
	p.closed = true
	p.mu.Unlock()
	p.c.Broadcast()
}

type end struct {
	r, w    *pipe
	pending []byte
	onWrite func([]byte)
}

func (e *end) Read(b []byte) (int, error) { return e.r.read(b) }
func (e *end) Write(b []byte) (int, error) {
	e.pending = append(e.pending, b...)
	return len(b), nil
}
func (e *end) Flush() error {
	if e.onWrite != nil && len(e.pending) > 0 {
		e.onWrite(e.pending)
	}
	_, err := e.w.write(e.pending)
	e.pending = nil
	return err
}
func (e *end) Close() error { e.r.close(); e.w.close(); return nil }

type memNet struct {
	chans   []chan *end
	cap     int
	chunk   int
	onWrite func(from, to int, b []byte)
}

func newMemNet(n, capacity, chunk int) *memNet {
	m := &memNet{cap: capacity, chunk: chunk}
	for i := 0; i < n; i++ {
		m.chans = append(m.chans, make(chan *end, 100))
	}
	return m
}

type memServer struct {
	m   *memNet
	pid int
}

func (m *memNet) server(pid int) *memServer { return &memServer{m, pid} }

func (s *memServer) Dial(to uint16) (network.Connection, error) {
	a, b := newPipe(s.m.cap, s.m.chunk), newPipe(s.m.cap, s.m.chunk)
	e := &end{r: b, w: a}
	if s.m.onWrite != nil {
		e.onWrite = func(x []byte) { s.m.onWrite(s.pid, int(to), x) }
	}
	s.m.chans[to] <- &end{r: a, w: b}
	return e, nil
}

func (s *memServer) Listen() (network.Connection, error) {
	select {
	case e := <-s.m.chans[s.pid]:
		return e, nil
	case <-time.After(100 * time.Millisecond):
		return nil, errors.New("timeout")
	}
}

func (s *memServer) Stop() {}
