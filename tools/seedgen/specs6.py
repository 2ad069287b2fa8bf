"""Planted bugs that need a particular interleaving, and some of pkg/sync."""
SPECS = []


def S(**k):
    SPECS.append(k)


SRV = "pkg/sync/server.go"
RECV = '''
			data[pid] = buf[10:]
'''

S(id="c01-payloads-reused", prop="C01", pkg="pkg/sync", helper="net",
  edits=[(SRV, "	startWG                 sync.WaitGroup\n", "	startWG                 sync.WaitGroup\n	payloads                [][]byte\n"),
         (SRV, "	s.inDataConn = make", "	s.payloads = make([][]byte, nProc)\n	s.inDataConn = make"),
         (SRV, "			data[pid] = buf[10:]\n", "			// reuse what was allocated in the previous rounds\n			s.payloads[pid] = append(s.payloads[pid][:0], buf[10:]...)\n			data[pid] = s.payloads[pid]\n")],
  needs="a callback that keeps the payload it was given until after a later round, whose payload is not longer",
  breaks="a payload that was delivered in one round is overwritten by that of a later round",
  demo='''
import (
	"bytes"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	m := newMemNet(2, 1<<16, 1<<16)
	start := time.Now().Add(500 * time.Millisecond)
	done := make(chan error, 2)
	for i := 0; i < 2; i++ {
		s := NewServer(uint16(i), 2, start, 20*time.Second, m.server(i))
		s.Start()
		go func(me byte) {
			var kept [][]byte
			for r := byte(0); r < 4; r++ {
				if err := s.Round([][]byte{{me, r, 7}}, func(_ uint16, data []byte) error {
					kept = append(kept, data)
					return nil
				}); err != nil {
					done <- err
					return
				}
			}
			for r, b := range kept {
				if !bytes.Equal(b, []byte{1 - me, byte(r), 7}) {
					t.Errorf("the payload of round %d has become %v", r, b)
				}
			}
			done <- nil
		}(byte(i))
	}
	for i := 0; i < 2; i++ {
		if err := <-done; err != nil {
			t.Fatal(err)
		}
	}
}
''')

S(id="c03-dial-backoff", prop="C03", pkg="pkg/sync", helper="net",
  edits=[(SRV, "				for {\n					conn, err := s.net.Dial(pid)\n					if err != nil {\n						continue", "				for wait := time.Millisecond; ; wait *= 2 {\n					conn, err := s.net.Dial(pid)\n					if err != nil {\n						// do not flood a party that is not there yet\n						time.Sleep(wait)\n						continue")],
  needs="a party that can be reached only some time after the others have started",
  breaks="the time between attempts to connect doubles without limit, so that start-up ends long after every party can be reached, and the start time is missed",
  demo='''
import (
	"errors"
	"testing"
	"time"

	"gitlab.com/alephledger/core-go/pkg/network"
)

type lateNet struct {
	*memServer
	from time.Time
}

func (l lateNet) Dial(to uint16) (network.Connection, error) {
	if time.Now().Before(l.from) {
		time.Sleep(100 * time.Microsecond)
		return nil, errors.New("no route")
	}
	return l.memServer.Dial(to)
}

func TestDemo(t *testing.T) {
	m := newMemNet(2, 1<<16, 1<<16)
	up := time.Now().Add(4500 * time.Millisecond)
	start := up.Add(2 * time.Second)
	done := make(chan error, 2)
	for i := 0; i < 2; i++ {
		s := NewServer(uint16(i), 2, start, 20*time.Second, lateNet{m.server(i), up})
		s.Start()
		go func() { done <- s.Round([][]byte{{1}}, func(uint16, []byte) error { return nil }) }()
	}
	for i := 0; i < 2; i++ {
		if err := <-done; err != nil {
			t.Fatal("two seconds were left to connect: ", err)
		}
	}
}
''')

# a network with one real party, all of whose peers say who they are and then break
FAKE = '''
type fakeConn struct {
	hello []byte
	gate  *gate
}

// gate lets all readers go at once.
type gate struct{ c chan struct{} }

func (c *fakeConn) Read(b []byte) (int, error) {
	if len(c.hello) > 0 {
		n := copy(b, c.hello)
		c.hello = c.hello[n:]
		return n, nil
	}
	<-c.gate.c
	return 0, io.EOF
}
func (c *fakeConn) Write(b []byte) (int, error) { return len(b), nil }
func (c *fakeConn) Flush() error                { return nil }
func (c *fakeConn) Close() error                { return nil }

type fakeNet struct {
	mu   stdsync.Mutex
	n    int
	next int
	gate *gate
}

func (f *fakeNet) Dial(to uint16) (network.Connection, error) { return &fakeConn{gate: f.gate}, nil }
func (f *fakeNet) Listen() (network.Connection, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.next++
	if f.next >= f.n {
		time.Sleep(10 * time.Millisecond)
		return nil, io.ErrNoProgress
	}
	return &fakeConn{hello: []byte{byte(f.next), byte(f.next >> 8)}, gate: f.gate}, nil
}
func (f *fakeNet) Stop() {}

// allBroken runs a round of a party whose peers all break at once.
func allBroken(t *testing.T, n int) error {
	f := &fakeNet{n: n, gate: &gate{make(chan struct{})}}
	s := NewServer(0, uint16(n), time.Now().Add(200*time.Millisecond), 20*time.Second, f)
	s.Start()
	done := make(chan error, 1)
	go func() { done <- s.Round([][]byte{{1}}, func(uint16, []byte) error { return nil }) }()
	time.Sleep(300 * time.Millisecond)
	close(f.gate.c)
	select {
	case err := <-done:
		return err
	case <-time.After(15 * time.Second):
		t.Fatal("the round does not end although all connections are broken")
	}
	return nil
}
'''
IMP = '''
import (
	"io"
	stdsync "sync"
	"testing"
	"time"

	"gitlab.com/alephledger/core-go/pkg/network"
)
'''

S(id="c02-missing-appended-concurrently", prop="C02", pkg="pkg/sync", helper="none",
  edits=[(SRV, "			defer wg.Done()\n\n			dataLen := make([]byte, 8)\n", "			defer wg.Done()\n			defer func() {\n				if errors[pid] != nil {\n					missing = append(missing, pid)\n				}\n			}()\n\n			dataLen := make([]byte, 8)\n"),
         (SRV, "			// TODO: not all erros should be treated as missing\n			missing = append(missing, pid)\n", "			// TODO: not all erros should be treated as missing\n")],
  needs="two receiving goroutines of one round that fail at the same moment, each appending to the list before it has seen the other's entry",
  breaks="a party whose payload did not arrive is not reported as missing, and its absent payload is handed to the callback",
  demo=IMP + FAKE + '''
func TestDemo(t *testing.T) {
	const n = 2000
	for k := 0; k < 8; k++ {
		err := allBroken(t, n)
		m, ok := err.(interface{ Missing() []uint16 })
		if !ok {
			t.Fatalf("no list of missing parties: %v", err)
		}
		seen := map[uint16]bool{}
		for _, p := range m.Missing() {
			seen[p] = true
		}
		if len(seen) != n-1 {
			t.Fatalf("%d of %d missing parties are reported", len(seen), n-1)
		}
	}
}
''')

S(id="c03-countdown-not-atomic", prop="C03", pkg="pkg/sync", helper="none",
  edits=[(SRV, "	missing := []uint16{}\n\n	wg := sync.WaitGroup{}\n	wg.Add(int(s.nProc) - 1)\n", "	missing := []uint16{}\n\n	left, all := int(s.nProc)-1, make(chan struct{})\n	if left == 0 {\n		close(all)\n	}\n"),
         (SRV, "			defer wg.Done()\n\n			dataLen := make([]byte, 8)\n", "			defer func() {\n				if left--; left == 0 {\n					close(all)\n				}\n			}()\n\n			dataLen := make([]byte, 8)\n"),
         (SRV, "	wg.Wait()\n\n	// TODO: better timeout handling\n	d := time.Until(endRound)\n	if d > time.Second {\n		fmt.Fprintf(os.Stderr, \"rid:%v: Round: receiving took too long %v\\n\", s.roundID, d)\n	}\n\n	var b", "	<-all\n\n	// TODO: better timeout handling\n	d := time.Until(endRound)\n	if d > time.Second {\n		fmt.Fprintf(os.Stderr, \"rid:%v: Round: receiving took too long %v\\n\", s.roundID, d)\n	}\n\n	var b")],
  needs="two receiving goroutines of one round that finish at the same moment, one counting down between the other's read and write of the counter",
  breaks="the round waits for ever (or panics) although everything it waits for has happened",
  demo=IMP + FAKE + '''
func TestDemo(t *testing.T) {
	for k := 0; k < 8; k++ {
		if err := allBroken(t, 2000); err == nil {
			t.Fatal("a round without any payload succeeds")
		}
	}
}
''')

S(id="c01-callbacks-in-parallel", prop="C01", pkg="pkg/sync", helper="net",
  edits=[(SRV, "	wrong := []uint16{}\n	for pid", "	wrong := []uint16{}\n	checked := make([]error, s.nProc)\n	for pid"),
         (SRV, "		err := check(pid, data[pid])\n		if err != nil {\n", "		wg.Add(1)\n		go func(pid uint16) {\n			defer wg.Done()\n			checked[pid] = check(pid, data[pid])\n		}(pid)\n	}\n	wg.Wait()\n	for pid := uint16(0); pid < s.nProc; pid++ {\n		if err := checked[pid]; err != nil {\n")],
  needs="a callback that is still at work when the next payload could be validated",
  breaks="callbacks of one round run at the same time; those of the protocols write without locks to what they share",
  demo='''
import (
	"sync/atomic"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	m := newMemNet(3, 1<<16, 1<<16)
	start := time.Now().Add(500 * time.Millisecond)
	done := make(chan error, 3)
	for i := 0; i < 3; i++ {
		s := NewServer(uint16(i), 3, start, 20*time.Second, m.server(i))
		s.Start()
		go func() {
			var at int32
			done <- s.Round([][]byte{{1}}, func(uint16, []byte) error {
				if atomic.AddInt32(&at, 1) > 1 {
					t.Error("two callbacks at the same time")
				}
				time.Sleep(100 * time.Millisecond)
				atomic.AddInt32(&at, -1)
				return nil
			})
		}()
	}
	for i := 0; i < 3; i++ {
		if err := <-done; err != nil {
			t.Fatal(err)
		}
	}
}
''')

DS = "pkg/arith/distributed_secret.go"
PRE = '''
import (
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func factory() *commitment.ElGamalFactory {
	return commitment.NewElGamalFactory(curve.NewSecp256k1Group().ScalarBaseMult(big.NewInt(987654321)))
}

func share(t *testing.T, h *hub, thr uint16, servers []*hubServer) []*TDSecret {
	n := h.n
	out := make([]*TDSecret, n)
	egf := factory()
	mustAll(t, each(t, n, func(i int) error {
		a, err := Gen("a", servers[i], egf, uint16(i), uint16(n))
		if err != nil {
			return err
		}
		out[i], err = a.Reshare(thr)
		return err
	}))
	return out
}

func hubServers(h *hub) []*hubServer {
	var out []*hubServer
	for i := 0; i < h.n; i++ {
		out = append(out, h.server(i))
	}
	return out
}
'''

S(id="c10-key-summed-by-goroutines", prop="C10", pkg="pkg/arith", helper="hub",
  edits=[(DS, "	channel := make(chan curve.Point, len(args))\n", "	tdk.pk = group.Neutral()\n"),
         (DS, "			channel <- group.ScalarMult(values[i], lagrangeCoef(arg, args, group.Order()))\n", "			term := group.ScalarMult(values[i], lagrangeCoef(arg, args, group.Order()))\n			tdk.pk = group.Add(tdk.pk, term)\n"),
         (DS, "	go func() {\n		wg.Wait()\n		close(channel)\n	}()\n\n	tdk.pk = group.Neutral()\n	for elem := range channel {\n		tdk.pk = group.Add(tdk.pk, elem)\n	}\n", "	wg.Wait()\n")],
  needs="two of the goroutines that compute the terms of the key adding theirs at the same moment",
  breaks="a term is lost and the party computes a wrong public key",
  demo=PRE + '''
func TestDemo(t *testing.T) {
	const n = 10
	for k := 0; k < 30; k++ {
		h := newHub(n)
		s := share(t, h, n, hubServers(h))
		keys := make([]*TDKey, n)
		vals := make([]*big.Int, n)
		mustAll(t, each(t, n, func(i int) (err error) {
			if keys[i], err = s[i].Exp(); err != nil {
				return err
			}
			vals[i], err = s[i].Reveal()
			return err
		}))
		g := curve.NewSecp256k1Group()
		for i := range keys {
			if !g.Equal(keys[i].PublicKey(), g.ScalarBaseMult(vals[i])) {
				t.Fatalf("try %d: party %d has a wrong public key", k, i)
			}
		}
	}
}
''')

CU = "pkg/curve/secp256k1.go"
CO = "pkg/crypto/commitment/commitment.go"
S(id="c07-negatives-remembered", prop="C07", pkg="pkg/curve", helper="none",
  edits=[(CU, "	pow   *big.Int\n}", "	pow   *big.Int\n	// negs has the inverses that were computed, by first coordinate\n	negs map[string]Point\n}"),
         (CU, "	return &sGroup{cur, new(big.Int).Sub(cur.N, big.NewInt(1))}\n", "	return &sGroup{cur, new(big.Int).Sub(cur.N, big.NewInt(1)), map[string]Point{}}\n"),
         (CU, "	return g.ScalarMult(a, g.pow)\n", "	as := a.(sPoint)\n	if as.x == nil {\n		return a\n	}\n	key := string(as.x.Bytes()) + string(as.y.Bytes())\n	if n, ok := g.negs[key]; ok {\n		return n\n	}\n	n := g.ScalarMult(a, g.pow)\n	g.negs[key] = n\n	return n\n")],
  needs="two goroutines computing inverses with the same group at the same moment",
  breaks="the process ends with concurrent map writes",
  demo='''
import (
	"math/big"
	stdsync "sync"
	"testing"
)

func TestDemo(t *testing.T) {
	g := NewSecp256k1Group()
	p := make([]Point, 200)
	for i := range p {
		p[i] = g.ScalarBaseMult(big.NewInt(int64(i + 1)))
	}
	for k := 0; k < 20; k++ {
		h := NewSecp256k1Group()
		var wg stdsync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := range p {
					q := p[(j*(2*i+1)+i)%len(p)]
					if !h.Equal(h.Add(q, h.Neg(q)), h.Neutral()) {
						t.Error("not the inverse")
					}
				}
			}()
		}
		wg.Wait()
	}
}
''')

S(id="c07-last-power-remembered", prop="C07", pkg="pkg/crypto/commitment", helper="none",
  edits=[(CO, "	neutral *ElGamal\n", "	neutral *ElGamal\n	// the power of the generator that was computed last, and its exponent\n	lastR     *big.Int\n	lastPower curve.Point\n"),
         (CO, "	return &ElGamal{\n		first: e.curve.ScalarBaseMult(r),\n", "	if e.lastR == nil || e.lastR.Cmp(r) != 0 {\n		e.lastR = new(big.Int).Set(r)\n		e.lastPower = e.curve.ScalarBaseMult(r)\n	}\n	return &ElGamal{\n		first: e.lastPower,\n")],
  needs="two goroutines creating commitments with the same factory, one reading what the other has only half updated",
  breaks="a commitment is created whose two components belong to different randomness",
  demo='''
import (
	"math/big"
	stdsync "sync"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestDemo(t *testing.T) {
	g := curve.NewSecp256k1Group()
	f := NewElGamalFactory(g.ScalarBaseMult(big.NewInt(12345)))
	var wg stdsync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 300; j++ {
				r := big.NewInt(int64(1 + (i+j)%5))
				c := f.Create(big.NewInt(7), r)
				if !g.Equal(c.first, g.ScalarBaseMult(r)) {
					t.Error("the first component is not the generator to the randomness")
					return
				}
			}
		}()
	}
	wg.Wait()
}
''')
