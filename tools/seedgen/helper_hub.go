package @NAME@

import (
	"fmt"
	"math/big"
	stdsync "sync"
	"testing"
	"time"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

// hub is an in-memory stand-in for the round servers of n parties.
type hub struct {
	mu     stdsync.Mutex
	c      *stdsync.Cond
	n      int
	posted []map[int][][]byte // per round
	dead   []int              // round from which a party is gone, or -1
	// tamper may change what from sends to to in a round; false drops it
	tamper func(round, from, to int, data []byte) ([]byte, bool)
	// seen is called with everything that is delivered
	seen func(round, from, to int, data []byte)
}

func newHub(n int) *hub {
	h := &hub{n: n, dead: make([]int, n)}
	h.c = stdsync.NewCond(&h.mu)
	for i := range h.dead {
		h.dead[i] = -1
	}
	return h
}

type hubServer struct {
	h     *hub
	pid   int
	round int
	sent  int
}

func (h *hub) server(pid int) *hubServer { return &hubServer{h: h, pid: pid} }

func (h *hub) servers() []sync.Server {
	out := make([]sync.Server, h.n)
	for i := range out {
		out[i] = h.server(i)
	}
	return out
}

// crash makes the party disappear from the given round on.
func (h *hub) crash(pid, round int) {
	h.mu.Lock()
	h.dead[pid] = round
	h.mu.Unlock()
	h.c.Broadcast()
}

type roundErr struct {
	msg  string
	miss []uint16
}

func (e *roundErr) Error() string     { return e.msg }
func (e *roundErr) Missing() []uint16 { return e.miss }

func (s *hubServer) Start() {}
func (s *hubServer) Stop()  {}

// Round waits for all parties that are still there.
func (s *hubServer) Round(toSend [][]byte, check func(uint16, []byte) error) error {
	h := s.h
	r := s.round
	s.round++
	cp := make([][]byte, len(toSend))
	for i := range toSend {
		cp[i] = append([]byte(nil), toSend[i]...)
	}
	h.mu.Lock()
	if d := h.dead[s.pid]; d >= 0 && r >= d {
		h.mu.Unlock()
		h.c.Broadcast()
		return &roundErr{"crashed", nil}
	}
	for len(h.posted) <= r {
		h.posted = append(h.posted, map[int][][]byte{})
	}
	h.posted[r][s.pid] = cp
	s.sent++
	h.c.Broadcast()
	for {
		ok := true
		for i := 0; i < h.n; i++ {
			if h.posted[r][i] == nil && !(h.dead[i] >= 0 && r >= h.dead[i]) {
				ok = false
			}
		}
		if ok {
			break
		}
		h.c.Wait()
	}
	got := h.posted[r]
	h.mu.Unlock()
	e := &roundErr{}
	for i := 0; i < h.n; i++ {
		if i == s.pid {
			continue
		}
		if got[i] == nil {
			e.miss = append(e.miss, uint16(i))
			e.msg += fmt.Sprintf("[%d absent]", i)
			continue
		}
		d := got[i][0]
		if len(got[i]) > 1 {
			d = got[i][s.pid]
		}
		d = append([]byte(nil), d...)
		if h.tamper != nil {
			var keep bool
			if d, keep = h.tamper(r, i, s.pid, d); !keep {
				e.miss = append(e.miss, uint16(i))
				e.msg += fmt.Sprintf("[%d absent]", i)
				continue
			}
		}
		if h.seen != nil {
			h.mu.Lock()
			h.seen(r, i, s.pid, d)
			h.mu.Unlock()
		}
		if err := check(uint16(i), d); err != nil {
			e.miss = append(e.miss, uint16(i))
			e.msg += fmt.Sprintf("[%d: %v]", i, err)
		}
	}
	if len(e.miss) > 0 {
		return e
	}
	return nil
}

// each runs f for every party at once and waits.
func each(t *testing.T, n int, f func(i int) error) []error {
	t.Helper()
	errs := make([]error, n)
	var wg stdsync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			errs[i] = f(i)
		}(i)
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(120 * time.Second):
		t.Fatal("the parties do not finish")
	}
	return errs
}

func mustAll(t *testing.T, errs []error) {
	t.Helper()
	for i, e := range errs {
		if e != nil {
			t.Fatalf("party %d: %v", i, e)
		}
	}
}

func blamed(e error, pid int) bool {
	m, ok := e.(interface{ Missing() []uint16 })
	if !ok {
		return false
	}
	for _, x := range m.Missing() {
		if int(x) == pid {
			return true
		}
	}
	return false
}

var _ = big.NewInt
