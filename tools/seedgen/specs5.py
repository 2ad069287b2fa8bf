SPECS = []


def S(**k):
    SPECS.append(k)


SRV = "pkg/sync/server.go"

S(id="c23-stop-takes-round-lock", prop="C23", pkg="pkg/sync", helper="net",
  edits=[(SRV, "	startWG                 sync.WaitGroup\n", "	startWG                 sync.WaitGroup\n	roundMx                 sync.Mutex\n"),
         (SRV, "func (s *server) Stop() {\n	s.startWG.Wait()\n", "func (s *server) Stop() {\n	s.startWG.Wait()\n	// connections are not taken away from a round\n	s.roundMx.Lock()\n	defer s.roundMx.Unlock()\n"),
         (SRV, "	defer func() { s.prevRoundEnd = time.Now() }()\n", "	s.roundMx.Lock()\n	defer s.roundMx.Unlock()\n	defer func() { s.prevRoundEnd = time.Now() }()\n")],
  needs="Stop called from another task while a round waits for a peer that sends nothing",
  breaks="Stop waits for the round in progress, which waits for the peer: neither ever returns",
  demo='''
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	m := newMemNet(2, 1<<16, 1<<16)
	start := time.Now().Add(500 * time.Millisecond)
	var s [2]Server
	for i := range s {
		s[i] = NewServer(uint16(i), 2, start, 20*time.Second, m.server(i))
		s[i].Start()
	}
	done := make(chan error, 2)
	go func() {
		done <- s[0].Round([][]byte{{1}}, func(uint16, []byte) error { return nil })
	}()
	time.Sleep(time.Second)
	go func() {
		s[0].Stop()
		done <- nil
	}()
	for i := 0; i < 2; i++ {
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			t.Fatal("Stop does not return, nor does the round in progress")
		}
	}
}
''')

S(id="c23-lower-party-keeps-open", prop="C23", pkg="pkg/sync", helper="net",
  edits=[(SRV, "	for pid := uint16(0); pid < s.nProc; pid++ {\n		if pid == s.pid {\n			continue\n		}\n		s.inDataConn[pid].Close()\n", "	// of each pair the party with the higher number closes\n	for pid := uint16(0); pid < s.pid; pid++ {\n		s.inDataConn[pid].Close()\n")],
  needs="a party stopping while a peer with a higher number still calls rounds",
  breaks="the connections with parties of higher number stay open: their later rounds wait for ever instead of failing",
  demo='''
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	const n = 3
	m := newMemNet(n, 1<<16, 1<<16)
	start := time.Now().Add(500 * time.Millisecond)
	done := make(chan error, n)
	for i := 0; i < n; i++ {
		i := i
		s := NewServer(uint16(i), n, start, 20*time.Second, m.server(i))
		s.Start()
		go func() {
			ok := func(uint16, []byte) error { return nil }
			if err := s.Round([][]byte{{1}}, ok); err != nil {
				t.Error(err)
			}
			if i == 0 {
				s.Stop()
				return
			}
			done <- s.Round([][]byte{{2}}, ok)
		}()
	}
	for i := 1; i < n; i++ {
		select {
		case err := <-done:
			if err == nil {
				t.Fatal("a round without the party that stopped succeeded")
			}
		case <-time.After(10 * time.Second):
			t.Fatal("a round waits for a party that stopped")
		}
	}
}
''')

S(id="c23-sends-outlive-round", prop="C23", pkg="pkg/sync", helper="net",
  edits=[(SRV, "	startWG                 sync.WaitGroup\n", "	startWG                 sync.WaitGroup\n	sendWG                  sync.WaitGroup\n	errSend                 error\n"),
         (SRV, "	defer func() { s.prevRoundEnd = time.Now() }()\n", "	defer func() { s.prevRoundEnd = time.Now() }()\n\n	// the previous round may still be sending\n	s.sendWG.Wait()\n	if s.errSend != nil {\n		return wrap(s.errSend)\n	}\n"),
         (SRV, "	var wg sync.WaitGroup\n	var errSend error\n	wg.Add(1)\n	go func() {\n		defer wg.Done()\n		errSend = s.sendToAll(toSend)\n	}()\n", "	s.sendWG.Add(1)\n	go func() {\n		defer s.sendWG.Done()\n		s.errSend = s.sendToAll(toSend)\n	}()\n"),
         (SRV, "	// the next round must not start while this one is still sending\n	wg.Wait()\n", ""),
         (SRV, "	if errSend != nil {\n		return wrap(errSend)\n	}\n\n	// TODO", "	// TODO")],
  needs="Stop called right after a round whose payload a slow peer has not yet taken",
  breaks="a round ends when everything is received, its own payload is sent in the background and lost when the party stops",
  demo='''
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	m := newMemNet(2, 64, 64)
	start := time.Now().Add(500 * time.Millisecond)
	done := make(chan error, 2)
	for i := 0; i < 2; i++ {
		i := i
		s := NewServer(uint16(i), 2, start, 20*time.Second, m.server(i))
		s.Start()
		pay := []byte{1}
		if i == 0 {
			pay = make([]byte, 4<<20)
		}
		go func() {
			err := s.Round([][]byte{pay}, func(uint16, []byte) error { return nil })
			if i == 0 {
				s.Stop()
			}
			done <- err
		}()
	}
	for i := 0; i < 2; i++ {
		select {
		case err := <-done:
			if err != nil {
				t.Fatal("the payload of a completed round is lost: ", err)
			}
		case <-time.After(60 * time.Second):
			t.Fatal("hang")
		}
	}
}
''')

S(id="c23-stop-channel-closed-twice", prop="C23", pkg="pkg/sync", helper="net",
  edits=[(SRV, "	startWG                 sync.WaitGroup\n", "	startWG                 sync.WaitGroup\n	quit                    chan struct{}\n"),
         (SRV, "		net:           net,\n	}\n", "		net:           net,\n		quit:          make(chan struct{}),\n	}\n"),
         (SRV, "		time.Sleep(d)\n\n", "		select {\n		case <-time.After(d):\n		case <-s.quit:\n			return wrap(fmt.Errorf(\"stopped\"))\n		}\n\n"),
         (SRV, "func (s *server) Stop() {\n	s.startWG.Wait()\n", "func (s *server) Stop() {\n	s.startWG.Wait()\n	close(s.quit)\n")],
  needs="Stop called a second time",
  breaks="the second call of Stop panics",
  demo='''
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	m := newMemNet(2, 1<<16, 1<<16)
	start := time.Now().Add(500 * time.Millisecond)
	done := make(chan error, 2)
	for i := 0; i < 2; i++ {
		s := NewServer(uint16(i), 2, start, 20*time.Second, m.server(i))
		s.Start()
		go func() {
			err := s.Round([][]byte{{1}}, func(uint16, []byte) error { return nil })
			s.Stop()
			defer func() {
				if recover() != nil {
					t.Error("the second Stop panics")
				}
				done <- err
			}()
			s.Stop()
		}()
	}
	for i := 0; i < 2; i++ {
		if err := <-done; err != nil {
			t.Fatal(err)
		}
	}
}
''')
