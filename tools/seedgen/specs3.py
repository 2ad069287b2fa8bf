import importlib.util as _u
import os as _o
_s = _u.spec_from_file_location("s1", _o.path.join(_o.path.dirname(_o.path.abspath(__file__)), "specs1.py"))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
PRE = _m.PRE
SPECS = []


def S(**k):
    SPECS.append(k)


SRV = "pkg/sync/server.go"

S(id="c01-shared-length-buffer", prop="C01", pkg="pkg/sync", helper="net",
  edits=[(SRV, "	wg := sync.WaitGroup{}\n	wg.Add(int(s.nProc) - 1)\n	errors := make([]error, s.nProc)\n	for pid := uint16(0); pid < s.nProc; pid++ {\n		if pid == s.pid {\n			continue\n		}\n		go func(pid uint16) {\n			defer wg.Done()\n			var d []byte\n", "	wg := sync.WaitGroup{}\n	wg.Add(int(s.nProc) - 1)\n	errors := make([]error, s.nProc)\n	dataLen := make([]byte, 8)\n	for pid := uint16(0); pid < s.nProc; pid++ {\n		if pid == s.pid {\n			continue\n		}\n		go func(pid uint16) {\n			defer wg.Done()\n			var d []byte\n"),
         (SRV, "			dataLen := make([]byte, 8)\n			binary.LittleEndian.PutUint64(dataLen, uint64(len(d)))\n", "			binary.LittleEndian.PutUint64(dataLen, uint64(len(d)))\n")],
  needs="payloads of different lengths per recipient and a write of the length that is slower than the preparation of another recipient's",
  breaks="the buffer of the length is shared by all recipients: a recipient may be told the length of another's payload",
  demo='''
import (
	"bytes"
	"testing"
	"time"

	"gitlab.com/alephledger/core-go/pkg/network"
)

// slow hands its bytes over only after a while.
type slow struct{ network.Connection }

func (s slow) Write(b []byte) (int, error) {
	time.Sleep(20 * time.Millisecond)
	return s.Connection.Write(b)
}

type slowServer struct{ network.Server }

func (s slowServer) Dial(pid uint16) (network.Connection, error) {
	c, err := s.Server.Dial(pid)
	if err != nil {
		return nil, err
	}
	return slow{c}, nil
}

func TestDemo(t *testing.T) {
	m := newMemNet(3, 1<<16, 1<<16)
	start := time.Now().Add(500 * time.Millisecond)
	done := make(chan error, 3)
	bad := make(chan string, 10)
	want := func(from, to int) []byte { return bytes.Repeat([]byte{byte(from), byte(to)}, 10*(from+1)*(to+1)) }
	for i := 0; i < 3; i++ {
		i := i
		s := NewServer(uint16(i), 3, start, 5*time.Second, slowServer{m.server(i)})
		s.Start()
		var out [][]byte
		for j := 0; j < 3; j++ {
			out = append(out, want(i, j))
		}
		go func() {
			done <- s.Round(out, func(from uint16, b []byte) error {
				if !bytes.Equal(b, want(int(from), i)) {
					bad <- "another payload than the one sent was delivered"
				}
				return nil
			})
		}()
	}
	for i := 0; i < 3; i++ {
		select {
		case err := <-done:
			if err != nil {
				t.Fatal(err)
			}
		case s := <-bad:
			t.Fatal(s)
		case <-time.After(5 * time.Second):
			t.Fatal("the round does not complete")
		}
	}
	select {
	case s := <-bad:
		t.Fatal(s)
	default:
	}
}
''')

S(id="c03-dial-gives-up", prop="C03", pkg="pkg/sync", helper="net",
  edits=[(SRV, "				for {\n					conn, err := s.net.Dial(pid)\n					if err != nil {\n						continue\n					}\n", "				for failed := 0; ; {\n					conn, err := s.net.Dial(pid)\n					if err != nil {\n						if failed++; failed >= 3 {\n							fmt.Fprintf(os.Stderr, \"pid:%v: cannot dial %v: %v\\n\", s.pid, pid, err)\n							return\n						}\n						continue\n					}\n")],
  needs="three failed attempts at dialling a peer which comes up only later",
  breaks="a party gives up dialling, start-up counts as finished and the first round uses the missing connection",
  demo='''
import (
	"errors"
	"fmt"
	stdsync "sync"
	"testing"
	"time"

	"gitlab.com/alephledger/core-go/pkg/network"
)

type lateServer struct {
	network.Server
	mu   stdsync.Mutex
	left int
}

func (s *lateServer) Dial(pid uint16) (network.Connection, error) {
	s.mu.Lock()
	s.left--
	l := s.left
	s.mu.Unlock()
	if l >= 0 {
		time.Sleep(10 * time.Millisecond)
		return nil, errors.New("connection refused")
	}
	return s.Server.Dial(pid)
}

func TestDemo(t *testing.T) {
	m := newMemNet(2, 1<<16, 1<<16)
	start := time.Now().Add(500 * time.Millisecond)
	done := make(chan error, 2)
	for i := 0; i < 2; i++ {
		s := NewServer(uint16(i), 2, start, 5*time.Second, &lateServer{Server: m.server(i), left: 6 * i})
		s.Start()
		go func() {
			defer func() {
				if e := recover(); e != nil {
					done <- fmt.Errorf("panic: %v", e)
				}
			}()
			done <- s.Round([][]byte{[]byte("x")}, func(uint16, []byte) error { return nil })
		}()
	}
	for i := 0; i < 2; i++ {
		select {
		case err := <-done:
			if err != nil {
				t.Fatal(err)
			}
		case <-time.After(5 * time.Second):
			t.Fatal("the round does not complete")
		}
	}
}
''')

S(id="c04-start-truncated", prop="C04", pkg="pkg/sync", helper="net",
  edits=[(SRV, "		startTime:     startTime,\n", "		startTime:     startTime.Truncate(time.Second),\n")],
  needs="an agreed start time which is not a whole second",
  breaks="the start time is cut to whole seconds: payloads leave up to a second early",
  demo='''
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	m := newMemNet(2, 1<<16, 1<<16)
	start := time.Now().Truncate(time.Second).Add(2700 * time.Millisecond)
	early := make(chan time.Time, 100)
	m.onWrite = func(from, to int, b []byte) {
		if len(b) > 2 && time.Now().Before(start) {
			early <- time.Now()
		}
	}
	done := make(chan error, 2)
	for i := 0; i < 2; i++ {
		s := NewServer(uint16(i), 2, start, 5*time.Second, m.server(i))
		s.Start()
		go func() { done <- s.Round([][]byte{[]byte("payload")}, func(uint16, []byte) error { return nil }) }()
	}
	for i := 0; i < 2; i++ {
		if err := <-done; err != nil {
			t.Fatal(err)
		}
	}
	if len(early) > 0 {
		t.Fatal("a payload was sent before the start time")
	}
}
''')

DS = "pkg/arith/distributed_secret.go"

S(id="c05-empty-share", prop="C05", pkg="pkg/arith", helper="hub",
  edits=[(DS, "		// TODO: check zkpok\n		secrets[pid] = new(big.Int).SetBytes(data)\n", "		// TODO: check zkpok\n		for data[0] == 0 {\n			data = data[1:]\n		}\n		secrets[pid] = new(big.Int).SetBytes(data)\n")],
  needs="a peer that sends an empty share, or one made only of zero bytes",
  breaks="revealing crashes on an empty payload",
  demo=PRE + '''
func TestDemo(t *testing.T) {
	for _, msg := range [][]byte{{}, {0}, {0, 0}} {
		h := newHub(2)
		sv := hubServers(h)
		tds := share(t, h, 2, sv)
		h.tamper = func(round, from, to int, d []byte) ([]byte, bool) {
			if from == 1 {
				return msg, true
			}
			return d, true
		}
		each(t, 2, func(i int) error {
			defer func() {
				if e := recover(); e != nil {
					t.Errorf("party %d: %v", i, e)
				}
			}()
			_, err := tds[i].Reveal()
			return err
		})
	}
}
''')

S(id="c06-second-point-unchecked", prop="C06", pkg="pkg/crypto/commitment", helper="none",
  edits=[("pkg/crypto/commitment/commitment.go", "	if err := c.curve.Encode(c.first, w); err != nil {\n		return fmt.Errorf(\"Encoding first coordinate in ElGamal: %v\", err)\n	}\n	if err := c.curve.Encode(c.second, w); err != nil {\n		return fmt.Errorf(\"Encoding second coordinate in ElGamal: %v\", err)\n	}\n	return nil\n",
          "	err := c.curve.Encode(c.first, w)\n	if err == nil {\n		err := c.curve.Encode(c.second, w)\n		if err != nil {\n			err = fmt.Errorf(\"second coordinate: %v\", err)\n		}\n	}\n	if err != nil {\n		return fmt.Errorf(\"Encoding ElGamal: %v\", err)\n	}\n	return nil\n")],
  needs="a stream that fails between the two points of a commitment",
  breaks="writing a commitment reports success although its second point was not written",
  demo='''
import (
	"bytes"
	"errors"
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

type failing struct{ left int }

func (f *failing) Write(b []byte) (int, error) {
	if len(b) > f.left {
		n := f.left
		f.left = 0
		return n, errors.New("disk full")
	}
	f.left -= len(b)
	return len(b), nil
}

func TestDemo(t *testing.T) {
	f := NewElGamalFactory(curve.NewSecp256k1Group().ScalarBaseMult(big.NewInt(11)))
	c := f.Create(big.NewInt(3), big.NewInt(4))
	w := &bytes.Buffer{}
	if err := c.Encode(w); err != nil {
		t.Fatal(err)
	}
	for n := 0; n < w.Len(); n++ {
		if c.Encode(&failing{n}) == nil {
			t.Fatalf("success although only %d of %d bytes were written", n, w.Len())
		}
	}
}
''')

S(id="c07-equal-by-x", prop="C07", pkg="pkg/curve", helper="none",
  edits=[("pkg/curve/secp256k1.go", "	return (as.x.Cmp(bs.x) == 0) && (as.y.Cmp(bs.y) == 0)\n", "	// the sign of y tells the two points with the same x apart\n	return (as.x.Cmp(bs.x) == 0) && (as.y.Sign() == bs.y.Sign())\n")],
  needs="comparing a point with its inverse",
  breaks="a point and its inverse are taken for equal",
  demo='''
import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	g := NewSecp256k1Group()
	for i := int64(1); i < 40; i++ {
		p := g.ScalarBaseMult(big.NewInt(i))
		if g.Equal(p, g.Neg(p)) {
			t.Fatalf("%d G equals its inverse", i)
		}
	}
}
''')

S(id="c08-empty-commitment", prop="C08", pkg="pkg/arith", helper="hub",
  edits=[("pkg/arith/distributed_key.go", "		if err := nmcs[pid].Verify(data, []byte{}); err != nil {\n			return err\n		}\n", "		if len(nmcs[pid].dataBytes) > 0 {\n			if err := nmcs[pid].Verify(data, []byte{}); err != nil {\n				return err\n			}\n		}\n")],
  needs="a party that commits to nothing in the first round and opens a value of its choice in the second",
  breaks="a party can choose its key share after having seen the others'",
  demo='''
import (
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestDemo(t *testing.T) {
	g := curve.NewSecp256k1Group()
	h := newHub(3)
	h.tamper = func(round, from, to int, d []byte) ([]byte, bool) {
		if from == 2 && round == 0 {
			return make([]byte, 8), true
		}
		return d, true
	}
	errs := each(t, 3, func(i int) error {
		_, err := GenExpReveal(uint16(i), "k", h.server(i), 3, g)
		return err
	})
	for i := 0; i < 2; i++ {
		if !blamed(errs[i], 2) {
			t.Errorf("party %d: %v", i, errs[i])
		}
	}
}
''')

S(id="c09-shared-decode", prop="C09", pkg="pkg/arith", helper="hub",
  edits=[(DS, "	check := func(pid uint16, data []byte) error {\n		// TODO: check zkpok\n		secrets[pid] = new(big.Int).SetBytes(data)\n", "	var share big.Int\n	check := func(pid uint16, data []byte) error {\n		// TODO: check zkpok\n		secrets[pid] = share.SetBytes(data)\n")],
  needs="revealing with shares of two or more other parties (threshold 3)",
  breaks="all received shares are the one received last: wrong values, different at every party",
  demo=PRE + '''
func TestDemo(t *testing.T) {
	h := newHub(3)
	sv := hubServers(h)
	tds := share(t, h, 3, sv)
	out := make([]*big.Int, 3)
	mustAll(t, each(t, 3, func(i int) error {
		var err error
		out[i], err = tds[i].Reveal()
		return err
	}))
	if out[0].Cmp(out[1]) != 0 || out[1].Cmp(out[2]) != 0 {
		t.Fatal("the parties reveal different values")
	}
}
''')

S(id="c11-zero-share-unchecked", prop="C11", pkg="pkg/arith", helper="hub",
  edits=[("pkg/arith/reshare.go", "		if !allEvalRefreshComm[pid][ads.pid].Equal(ads.egf.Create(recvEvals[pid], recvRand[pid]), allEvalRefreshComm[pid][ads.pid]) {\n", "		if l > 0 && !allEvalRefreshComm[pid][ads.pid].Equal(ads.egf.Create(recvEvals[pid], recvRand[pid]), allEvalRefreshComm[pid][ads.pid]) {\n")],
  needs="a dealer that sends an empty share in place of the one it has committed to",
  breaks="a dealer can replace the share of a party by zero and nobody notices",
  demo=PRE + '''
func TestDemo(t *testing.T) {
	h := newHub(3)
	sv := hubServers(h)
	egf := factory()
	h.tamper = func(round, from, to int, d []byte) ([]byte, bool) {
		if from == 2 && to == 0 && round == 5 {
			return []byte{0, 0, 0, 0, 9}, true
		}
		return d, true
	}
	errs := each(t, 3, func(i int) error {
		a, err := Gen("a", sv[i], egf, uint16(i), 3)
		if err != nil {
			return err
		}
		if _, err = a.Reshare(2); err != nil {
			h.crash(i, sv[i].round)
		}
		return err
	})
	if !blamed(errs[0], 2) {
		t.Fatalf("party 0: %v", errs[0])
	}
}
''')

S(id="c15-trivial-triple", prop="C15", pkg="pkg/arith", helper="hub",
  edits=[("pkg/arith/checkDH.go", "	nProc := len(key.pkShares)\n	var err error\n", "	nProc := len(key.pkShares)\n	var err error\n\n	// nothing to check for the neutral element\n	if group.Equal(v, group.Neutral()) {\n		return nil\n	}\n")],
  needs="a false triple whose claimed second point is the neutral element",
  breaks="the check accepts the false triple",
  demo='''
import (
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestDemo(t *testing.T) {
	g := curve.NewSecp256k1Group()
	h := newHub(2)
	keys := make([]*DKey, 2)
	sv := []*hubServer{h.server(0), h.server(1)}
	mustAll(t, each(t, 2, func(i int) error {
		var err error
		keys[i], err = GenExpReveal(uint16(i), "k", sv[i], 2, g)
		return err
	}))
	u := g.ScalarBaseMult(big.NewInt(77))
	errs := each(t, 2, func(i int) error { return CheckDH(u, g.Neutral(), g, keys[i]) })
	for i := range errs {
		if errs[i] == nil {
			t.Errorf("party %d accepts (u, neutral)", i)
		}
	}
}
''')

TE = "pkg/tecdsa/tecdsa.go"

S(id="c17-last-used-first-dropped", prop="C17", pkg="pkg/tecdsa", helper="hub",
  edits=[(TE, "	ps := p.presig[0]\n	p.presig = p.presig[1:]\n", "	// the newest one has been reshared most recently\n	ps := p.presig[len(p.presig)-1]\n	p.presig = p.presig[1:]\n")],
  needs="two presignatures in the store and two signatures",
  breaks="the presignature that is used is not the one that is removed: the nonce is used twice",
  demo='''
import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	h := newHub(2)
	first := make([]*Signature, 2)
	second := make([]*Signature, 2)
	mustAll(t, each(t, 2, func(i int) error {
		p, err := Init(uint16(i), 2, h.server(i))
		if err != nil {
			return err
		}
		for k := 0; k < 2; k++ {
			if err := p.Presign(1); err != nil {
				return err
			}
		}
		if first[i], err = p.Sign(big.NewInt(5)); err != nil {
			return err
		}
		second[i], err = p.Sign(big.NewInt(6))
		return err
	}))
	if first[0].r.Cmp(second[0].r) == 0 {
		t.Fatal("two signatures with the same nonce")
	}
}
''')

S(id="c18-polynomial-kept", prop="C18", pkg="pkg/arith", helper="hub",
  edits=[("pkg/arith/distributed_secret.go", "	egs []*commitment.ElGamal\n}\n", "	egs []*commitment.ElGamal\n	f   []*big.Int // of the last resharing\n}\n"),
         ("pkg/arith/reshare.go", "	var f []*big.Int\n	if f, err = poly(t-1, ads.skShare); err != nil {\n		return nil, err\n	}\n", "	f := ads.f\n	if len(f) != int(t) {\n		if f, err = poly(t-1, ads.skShare); err != nil {\n			return nil, err\n		}\n		ads.f = f\n	}\n")],
  needs="the same secret reshared twice with the same threshold (a retry after a failure, say)",
  breaks="the polynomial of the first resharing is used again, so the shares of two sharings are the same",
  demo='''
import (
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestDemo(t *testing.T) {
	h := newHub(2)
	egf := commitment.NewElGamalFactory(curve.NewSecp256k1Group().ScalarBaseMult(big.NewInt(987654321)))
	var x, y [2]*TDSecret
	mustAll(t, each(t, 2, func(i int) error {
		a, err := Gen("a", h.server(i), egf, uint16(i), 2)
		if err != nil {
			return err
		}
		if x[i], err = a.Reshare(2); err != nil {
			return err
		}
		y[i], err = a.Reshare(2)
		return err
	}))
	for i := range x {
		if x[i].skShare.Cmp(y[i].skShare) == 0 {
			t.Fatal("two sharings with the same shares")
		}
	}
}
''')

S(id="c19-product-randomness", prop="C19", pkg="pkg/arith", helper="hub",
  edits=[("pkg/arith/mult.go", "	r, err := rand.Int(randReader, Q)\n	if err != nil {\n		return nil, err\n	}\n	bProd.Exp(bProd, a.skShare)\n", "	r, err := rand.Int(randReader, Q)\n	if err != nil {\n		// the commitment of the share is blinded already\n		r = c.r\n	}\n	bProd.Exp(bProd, a.skShare)\n")],
  needs="the randomness source failing exactly at the blinding of the commitment to the product",
  breaks="the commitment to the product is blinded with randomness that is used elsewhere, and the multiplication goes on",
  demo='''
import (
	"crypto/rand"
	"errors"
	"io"
	"math/big"
	"testing"
	"time"

	"github.com/binance-chain/tss-lib/crypto/paillier"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

type source struct {
	r    io.Reader
	left int
	n    int

	failed bool
}

func (s *source) Read(b []byte) (int, error) {
	s.n++
	if s.left == 0 {
		s.failed = true
		return 0, errors.New("no entropy")
	}
	s.left--
	return s.r.Read(b)
}

func TestDemo(t *testing.T) {
	real := rand.Reader
	defer func() { rand.Reader = real; randReader = real }()
	priv, pub, err := paillier.GenerateKeyPair(600, time.Minute)
	if err != nil {
		t.Fatal(err)
	}
	sv := newHub(1).server(0)
	egf := commitment.NewElGamalFactory(curve.NewSecp256k1Group().ScalarBaseMult(big.NewInt(987654321)))
	a, err := Gen("a", sv, egf, 0, 1)
	if err != nil {
		t.Fatal(err)
	}
	try := func(left int) (int, bool, error) {
		s := &source{r: real, left: left}
		rand.Reader, randReader = s, s
		_, err := Mult(a, a, "c", priv, pub, []*paillier.PublicKey{pub})
		rand.Reader, randReader = real, real
		return s.n, s.failed, err
	}
	n, _, err := try(-1)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 10*n; i++ {
		k := i % n
		if _, failed, err := try(k); err == nil && failed {
			t.Fatalf("draw %d failed and the multiplication succeeded", k)
		}
	}
}
''')

# ---------------- programs ----------------
GK = "cmd/gen_keys/main.go"
TM = "cmd/tecdsa/main.go"

LOAD = '''
func loads(t *testing.T, dir string, n int) {
	t.Helper()
	lines := strings.Split(strings.TrimSuffix(content(t, dir, "keys_addrs"), "\\n"), "\\n")
	if len(lines) != n {
		t.Fatalf("%d lines for %d members", len(lines), n)
	}
	for i, l := range lines {
		pk := strings.Fields(content(t, dir, strconv.Itoa(i)+".pk"))
		if len(pk) != 2 || pk[1] != strconv.Itoa(i) {
			t.Fatalf("member %d: %q", i, pk)
		}
		raw, err := base64.StdEncoding.DecodeString(pk[0])
		if err != nil {
			t.Fatal(err)
		}
		k := int(raw[0]) + 256*int(raw[1])
		p := strings.Split(l, "|")
		pub, err := base64.StdEncoding.DecodeString(p[0])
		if err != nil || len(p) != 2 {
			t.Fatalf("line %q: %v", l, err)
		}
		if string(pub) != string(raw[2:2+k]) {
			t.Fatalf("member %d: another public key", i)
		}
	}
}
'''

S(id="c20-buffered-addresses", prop="C20", pkg="cmd/gen_keys", helper="cmd",
  edits=[(GK, "	for _, p := range processes {\n\n		if _, err := f.WriteString(base64", "	w := bufio.NewWriter(f)\n	for _, p := range processes {\n\n		if _, err := w.WriteString(base64"),
         (GK, "		if _, err = f.WriteString(\"|\"); err != nil {", "		if _, err = w.WriteString(\"|\"); err != nil {"),
         (GK, "		if _, err = f.WriteString(p.localAddr); err != nil {", "		if _, err = w.WriteString(p.localAddr); err != nil {"),
         (GK, "		if _, err = f.Write([]byte(\"\\n\")); err != nil {\n			fmt.Fprintln(os.Stderr, err)\n			return\n		}\n	}\n", "		if _, err = w.Write([]byte(\"\\n\")); err != nil {\n			fmt.Fprintln(os.Stderr, err)\n			return\n		}\n	}\n	w.Flush()\n")],
  needs="a disk that is full when keys_addrs is written",
  breaks="the writes are buffered and the error of the last flush is dropped: success is reported for a truncated file",
  demo='''
import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	if err := os.Symlink("/dev/full", filepath.Join(dir, "keys_addrs")); err != nil {
		t.Fatal(err)
	}
	ended, err := wait(program(t, dir, "2"), 100*time.Second)
	if !ended {
		t.Fatal("does not end")
	}
	if err == nil && content(t, dir, "stderr") == "" {
		t.Fatal("no error although the disk is full")
	}
}
''')

S(id="c20-not-truncated", prop="C20", pkg="cmd/gen_keys", helper="cmd",
  edits=[(GK, "	f, err := os.Create(\"keys_addrs\")\n", "	f, err := os.OpenFile(\"keys_addrs\", os.O_WRONLY|os.O_CREATE, 0644)\n")],
  needs="a keys_addrs left by an earlier run for a larger committee",
  breaks="the rest of the earlier file stays behind the new one",
  demo='''
import (
	"encoding/base64"
	"io/ioutil"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"
)
''' + LOAD + '''
func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	for _, n := range []int{4, 2} {
		ended, err := wait(program(t, dir, strconv.Itoa(n)), 100*time.Second)
		if !ended || err != nil || content(t, dir, "stderr") != "" {
			t.Fatal(ended, err, content(t, dir, "stderr"))
		}
		loads(t, dir, n)
	}
}
''')

S(id="c20-id-of-one-byte", prop="C20", pkg="cmd/tecdsa", helper="cmd",
  edits=[(TM, "	m.pid, err = strconv.Atoi(scanner.Text())\n	if err != nil {\n		return nil, err\n	}\n", "	pid, err := strconv.ParseUint(scanner.Text(), 10, 8)\n	if err != nil {\n		return nil, err\n	}\n	m.pid = int(pid)\n")],
  needs="a committee of more than 256 members",
  breaks="the files of the members from the 257th on do not load",
  demo='''
import (
	"encoding/base64"
	"io/ioutil"
	"math/big"
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	var raw []byte
	for _, x := range []*big.Int{big.NewInt(77), big.NewInt(30), big.NewInt(60)} {
		raw = append(raw, byte(len(x.Bytes())), 0)
		raw = append(raw, x.Bytes()...)
	}
	f := filepath.Join(dir, "k")
	for _, pid := range []string{"0", "255", "256", "300"} {
		if err := ioutil.WriteFile(f, []byte(base64.StdEncoding.EncodeToString(raw)+" "+pid+"\\n"), 0600); err != nil {
			t.Fatal(err)
		}
		if _, err := getMember(f); err != nil {
			t.Errorf("member %s: %v", pid, err)
		}
	}
}
''')

S(id="c20-exact-colon", prop="C20", pkg="cmd/tecdsa", helper="cmd",
  edits=[(TM, "	if len(strings.Split(addr, \":\")) < 2 {\n", "	if len(strings.Split(addr, \":\")) != 2 {\n")],
  needs="an address of IPv6",
  breaks="committees with IPv6 addresses do not load",
  demo='''
import "testing"

func TestDemo(t *testing.T) {
	for _, a := range []string{"127.0.0.1:10000", "host:1", "[::1]:10000"} {
		_, got, err := parseCommitteeLine("TQ==|" + a)
		if err != nil || got != a {
			t.Errorf("%s: %q %v", a, got, err)
		}
	}
}
''')

DEPLOY = '''
// deployment writes the files of a committee.
func deployment(t *testing.T, n int) (string, []string) {
	t.Helper()
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	addrs := ports(t, n)
	var dirs []string
	all := ""
	for i := 0; i < n; i++ {
		priv, pub, err := paillier.GenerateKeyPair(264, time.Minute)
		if err != nil {
			t.Fatal(err)
		}
		var raw []byte
		for _, x := range []*big.Int{priv.PublicKey.N, priv.LambdaN, priv.PhiN} {
			raw = append(raw, byte(len(x.Bytes())), 0)
			raw = append(raw, x.Bytes()...)
		}
		d := filepath.Join(dir, strconv.Itoa(i))
		if err := os.Mkdir(d, 0700); err != nil {
			t.Fatal(err)
		}
		if err := ioutil.WriteFile(filepath.Join(d, "pk"), []byte(base64.StdEncoding.EncodeToString(raw)+" "+strconv.Itoa(i)+"\\n"), 0600); err != nil {
			t.Fatal(err)
		}
		dirs = append(dirs, d)
		all += base64.StdEncoding.EncodeToString(pub.N.Bytes()) + "|" + addrs[i] + "\\n"
	}
	for _, d := range dirs {
		if err := ioutil.WriteFile(filepath.Join(d, "keys_addrs"), []byte(all), 0600); err != nil {
			t.Fatal(err)
		}
	}
	return dir, dirs
}

func when(d time.Duration) (time.Time, string) {
	s := time.Now().UTC().Truncate(time.Second).Add(d)
	return s, strings.ReplaceAll(s.Format(time.UnixDate), " ", "-")
}
'''
IMP = '''
import (
	"encoding/base64"
	"io/ioutil"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/binance-chain/tss-lib/crypto/paillier"
)

var _ exec.Cmd
'''

S(id="c21-pid-equal-size", prop="C21", pkg="cmd/tecdsa", helper="cmd",
  edits=[(TM, "	if member.pid >= len(committee.addresses) {\n", "	if member.pid > len(committee.addresses) {\n")],
  needs="a process given the file of a member just outside the committee",
  breaks="the process crashes instead of reporting the wrong process id",
  demo=IMP + DEPLOY + '''
func TestDemo(t *testing.T) {
	dir, dirs := deployment(t, 3)
	defer os.RemoveAll(dir)
	d := dirs[2]
	lines := strings.SplitAfter(content(t, d, "keys_addrs"), "\\n")
	if err := ioutil.WriteFile(filepath.Join(d, "keys_addrs"), []byte(lines[0]+lines[1]), 0600); err != nil {
		t.Fatal(err)
	}
	_, s := when(3 * time.Second)
	ended, _ := wait(program(t, d, "-pk", "pk", "-keys_addrs", "keys_addrs", "-startTime", s, "-roundDuration", "1s"), 60*time.Second)
	log := content(t, d, "aleph.log")
	if !ended || !strings.Contains(log, "pid") || strings.Contains(log, "panic") || strings.Contains(log, "Starting") {
		t.Fatal(ended, log)
	}
}
''')

S(id="c21-stop-after-failure", prop="C21", pkg="cmd/tecdsa", helper="cmd",
  edits=[(TM, "				fmt.Fprintf(logFile, \"error during generating a presignature: %v\\n\", err)\n				os.Exit(1)\n				return\n", "				fmt.Fprintf(logFile, \"error during generating a presignature: %v\\n\", err)\n				return\n")],
  needs="a presignature whose generation fails because a process crashed",
  breaks="the process goes on without the presignature and claims to be done",
  demo=IMP + DEPLOY + '''
func TestDemo(t *testing.T) {
	dir, dirs := deployment(t, 2)
	defer os.RemoveAll(dir)
	_, s := when(3 * time.Second)
	var cs []*exec.Cmd
	for i, d := range dirs {
		// the second process is asked for fewer presignatures and is gone when the first one wants more
		cs = append(cs, program(t, d, "-pk", "pk", "-keys_addrs", "keys_addrs", "-startTime", s, "-roundDuration", "1s", "-sigNumber", strconv.Itoa(4-3*i)))
	}
	for i, c := range cs {
		if ended, _ := wait(c, 60*time.Second); !ended {
			t.Fatalf("process %d does not end", i)
		}
	}
	if log := content(t, dirs[0], "aleph.log"); strings.Contains(log, "All done") {
		t.Fatal(log)
	}
}
''')

S(id="c21-start-in-local-minute", prop="C21", pkg="cmd/tecdsa", helper="cmd",
  edits=[(TM, "	server := sync.NewServer(uint16(member.pid), nProc, startTime, roundDuration, net)\n", "	if d := time.Until(startTime); d < 0 && d > -time.Minute {\n		// the clocks of the machines are not perfect\n		startTime = time.Now().Add(roundDuration)\n	}\n	server := sync.NewServer(uint16(member.pid), nProc, startTime, roundDuration, net)\n")],
  needs="a process which starts shortly after the agreed time",
  breaks="a late process picks a start time of its own and takes part",
  demo=IMP + DEPLOY + '''
func TestDemo(t *testing.T) {
	dir, dirs := deployment(t, 2)
	defer os.RemoveAll(dir)
	_, s := when(-10 * time.Second)
	var cs []*exec.Cmd
	for _, d := range dirs {
		cs = append(cs, program(t, d, "-pk", "pk", "-keys_addrs", "keys_addrs", "-startTime", s, "-roundDuration", "1s"))
	}
	for i, c := range cs {
		if ended, _ := wait(c, 60*time.Second); !ended {
			t.Fatalf("process %d does not end", i)
		}
		if log := content(t, dirs[i], "aleph.log"); strings.Contains(log, "All done") {
			t.Fatal(log)
		}
	}
}
''')

S(id="c21-threshold-plus-one", prop="C21", pkg="cmd/tecdsa", helper="cmd",
  edits=[(TM, "			if err = proto.Presign(uint16(options.threshold)); err != nil {\n", "			if err = proto.Presign(uint16(options.threshold + 1)); err != nil {\n")],
  needs="crashes while signing, or the largest threshold",
  breaks="a signature needs one party more than asked for",
  demo=IMP + DEPLOY + '''
func TestDemo(t *testing.T) {
	// the largest threshold still allows to sign
	dir, dirs := deployment(t, 2)
	defer os.RemoveAll(dir)
	_, s := when(3 * time.Second)
	var cs []*exec.Cmd
	for _, d := range dirs {
		cs = append(cs, program(t, d, "-pk", "pk", "-keys_addrs", "keys_addrs", "-startTime", s, "-roundDuration", "1s", "-sigNumber", "2", "-threshold", "2"))
	}
	for i, c := range cs {
		if ended, _ := wait(c, 60*time.Second); !ended {
			t.Fatalf("process %d does not end", i)
		}
		if log := content(t, dirs[i], "aleph.log"); !strings.Contains(log, "All done") || strings.Contains(log, "error") {
			t.Fatal(log)
		}
	}
}
''')
