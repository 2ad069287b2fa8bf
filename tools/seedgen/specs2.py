from importlib import util as _u
import os as _o
_s = _u.spec_from_file_location("s1", _o.path.join("/verif/tools/seedgen", "specs1.py"))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
PRE = _m.PRE
SPECS = []


def S(**k):
    SPECS.append(k)


S(id="c17-presig-kept-on-failure", prop="C17", pkg="pkg/tecdsa", helper="hub",
  edits=[("pkg/tecdsa/tecdsa.go", "	if psgn.tau, err = tau.Reshare(t); err != nil {\n		return err\n	}\n\n	p.presig = append(p.presig, psgn)\n	return nil\n", "	p.presig = append(p.presig, psgn)\n	if psgn.tau, err = tau.Reshare(t); err != nil {\n		return err\n	}\n\n	return nil\n")],
  needs="a presigning attempt that fails in its last resharing",
  breaks="an incomplete presignature stays in the store and the next signing attempt uses it (and crashes)",
  demo='''
import (
	"errors"
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

// flaky fails every round after the given number of them.
type flaky struct {
	sync.Server
	left int
	used int
}

func (f *flaky) Round(d [][]byte, c func(uint16, []byte) error) error {
	f.used++
	if f.left == 0 {
		return errors.New("no network")
	}
	f.left--
	return f.Server.Round(d, c)
}

func TestDemo(t *testing.T) {
	// one party alone goes through all the steps
	f := &flaky{Server: newHub(1).server(0), left: -1}
	p, err := Init(0, 1, f)
	if err != nil {
		t.Fatal(err)
	}
	f.used = 0
	if err := p.Presign(1); err != nil {
		t.Fatal(err)
	}
	rounds := f.used
	if _, err := p.Sign(big.NewInt(5)); err != nil {
		t.Fatal(err)
	}
	for k := 0; k < rounds; k++ {
		f.left = k
		if p.Presign(1) == nil {
			t.Fatal("a failing presigning succeeds")
		}
		f.left = 0
		f.used = 0
		func() {
			defer func() {
				if recover() != nil {
					t.Fatalf("signing uses the presignature that failed in round %d", k)
				}
			}()
			p.Sign(big.NewInt(6))
		}()
		if f.used != 0 {
			t.Fatalf("signing uses the presignature that failed in round %d", k)
		}
	}
}
''')

S(id="c17-consumed-on-success", prop="C17", pkg="pkg/tecdsa", helper="hub",
  edits=[("pkg/tecdsa/tecdsa.go", "	ps := p.presig[0]\n	p.presig = p.presig[1:]\n", "	ps := p.presig[0]\n"),
         ("pkg/tecdsa/tecdsa.go", "	return &Signature{r, s}, nil\n", "	p.presig = p.presig[1:]\n	return &Signature{r, s}, nil\n")],
  needs="a signing attempt that fails after the nonce was published, followed by another one",
  breaks="the presignature of a failed attempt is used again for another message: the nonce repeats",
  demo='''
import (
	"errors"
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

type flaky struct {
	sync.Server
	left int
}

func (f *flaky) Round(d [][]byte, c func(uint16, []byte) error) error {
	if f.left == 0 {
		return errors.New("no network")
	}
	f.left--
	return f.Server.Round(d, c)
}

func TestDemo(t *testing.T) {
	h := newHub(2)
	fs := []*flaky{{Server: h.server(0), left: -1}, {Server: h.server(1), left: -1}}
	ps := make([]*Protocol, 2)
	mustAll(t, each(t, 2, func(i int) (err error) {
		if ps[i], err = Init(uint16(i), 2, fs[i]); err != nil {
			return
		}
		return ps[i].Presign(2)
	}))
	for _, f := range fs {
		f.left = 1
	}
	for _, err := range each(t, 2, func(i int) error { _, err := ps[i].Sign(big.NewInt(5)); return err }) {
		if err == nil {
			t.Fatal("signed without a network")
		}
	}
	for _, f := range fs {
		f.left = -1
	}
	for _, err := range each(t, 2, func(i int) error { _, err := ps[i].Sign(big.NewInt(6)); return err }) {
		if err == nil {
			t.Fatal("the presignature of the failed attempt was used again")
		}
	}
}
''')

S(id="c16-first-component-of-share", prop="C16", pkg="pkg/tecdsa", helper="hub",
  edits=[("pkg/tecdsa/tecdsa.go", "	r := crypto.HashToBigInt(w.Bytes())\n", "	r := crypto.HashToBigInt(w.Bytes())\n	if message.Sign() != 0 {\n		r.Add(r, message).Mod(r, p.group.Order())\n	}\n")],
  needs="two messages signed with the same presignature being compared",
  breaks="the first component of a signature depends on the message and the second is no longer affine in it with the slope of the presignature",
  demo='''
import (
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto"
	"bytes"
)

func TestDemo(t *testing.T) {
	p, err := Init(0, 1, newHub(1).server(0))
	if err != nil {
		t.Fatal(err)
	}
	if err := p.Presign(1); err != nil {
		t.Fatal(err)
	}
	ps := p.presig[0]
	a, err := p.Sign(big.NewInt(5))
	if err != nil {
		t.Fatal(err)
	}
	k, err := ps.k.Exp()
	if err != nil {
		t.Fatal(err)
	}
	var w bytes.Buffer
	p.group.Encode(k.PublicKey(), &w)
	if a.r.Cmp(pkg.HashToBigInt(w.Bytes())) != 0 {
		t.Fatal("the first component does not depend on the presignature alone")
	}
}
''')

S(id="c16-message-truncated", prop="C16", pkg="pkg/tecdsa", helper="hub",
  edits=[("pkg/tecdsa/tecdsa.go", "	ps := p.presig[0]\n", "	// as with other ECDSA implementations only the leftmost bits count\n	if excess := message.BitLen() - p.group.Order().BitLen(); excess > 0 {\n		message = new(big.Int).Rsh(message, uint(excess))\n	}\n\n	ps := p.presig[0]\n")],
  needs="a message of more than 256 bits",
  breaks="the second component is not affine in the message modulo the order",
  demo='''
import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	p, err := Init(0, 1, newHub(1).server(0))
	if err != nil {
		t.Fatal(err)
	}
	if err := p.Presign(1); err != nil {
		t.Fatal(err)
	}
	ps := p.presig[0]
	m := big.NewInt(12345)
	a, err := p.Sign(m)
	if err != nil {
		t.Fatal(err)
	}
	p.presig = append(p.presig, ps)
	// the same message modulo the order
	m2 := new(big.Int).Add(m, new(big.Int).Mul(p.group.Order(), big.NewInt(1<<20)))
	b, err := p.Sign(m2)
	if err != nil {
		t.Fatal(err)
	}
	if a.s.Cmp(b.s) != 0 {
		t.Fatal("messages that are equal modulo the order have different signatures")
	}
}
''')

S(id="c13-combination-in-place", prop="C13", pkg="pkg/arith", helper="hub",
  edits=[("pkg/arith/distributed_secret.go", "		result := tds.egf.Neutral()\n		result.Compose(result, aeg)\n		result.Exp(result, alpha)\n", "		result := aeg\n		result.Exp(result, alpha)\n")],
  needs="using an input of a linear combination after it was computed",
  breaks="computing a linear combination changes the published commitments of its first input",
  demo=PRE + '''
func TestDemo(t *testing.T) {
	h := newHub(2)
	sv := hubServers(h)
	a := share(t, h, 2, sv)
	b := share(t, h, 2, sv)
	for i := range a {
		Lin(big.NewInt(3), big.NewInt(5), a[i], b[i], "c")
		for j, eg := range a[i].egs {
			own := a[j].egf.Create(a[j].skShare, a[j].r)
			if !eg.Equal(eg, own) {
				t.Fatalf("party %d: the commitment of %d to its share of a no longer is one", i, j)
			}
		}
	}
}
''')

S(id="c13-combination-shares-randomness", prop="C13", pkg="pkg/arith", helper="hub",
  edits=[("pkg/arith/distributed_secret.go", "	tds.egs[a.pid] = makeEGLin(a.egs[a.pid], b.egs[b.pid])\n	for pid, eg := range a.egs {\n		if eg != nil {\n			tds.egs[pid] = makeEGLin(a.egs[pid], b.egs[pid])\n		}\n	}\n", "	for pid := range a.egs {\n		if alpha.Cmp(beta) == 0 {\n			// a single exponentiation is enough\n			sum := a.egs[pid].Compose(a.egs[pid], b.egs[pid])\n			tds.egs[pid] = tds.egf.Neutral().Exp(sum, alpha)\n			continue\n		}\n		tds.egs[pid] = makeEGLin(a.egs[pid], b.egs[pid])\n	}\n")],
  needs="a linear combination with two equal coefficients, and using its first input afterwards",
  breaks="computing a linear combination with equal coefficients changes the published commitments of its first input",
  demo=PRE + '''
func TestDemo(t *testing.T) {
	h := newHub(2)
	sv := hubServers(h)
	a := share(t, h, 2, sv)
	b := share(t, h, 2, sv)
	for i := range a {
		Lin(big.NewInt(3), big.NewInt(3), a[i], b[i], "c")
		for j, eg := range a[i].egs {
			own := a[j].egf.Create(a[j].skShare, a[j].r)
			if !eg.Equal(eg, own) {
				t.Fatalf("party %d: the commitment of %d to its share of a no longer is one", i, j)
			}
		}
	}
}
''')

S(id="c14-product-of-zero", prop="C14", pkg="pkg/arith", helper="hub",
  edits=[("pkg/arith/mult.go", "	share := new(big.Int).Mul(a, b)\n", "	share := new(big.Int).Mul(a, b)\n	if share.Sign() == 0 {\n		return share, nil\n	}\n")],
  needs="a party whose share of one of the factors is zero",
  breaks="the product is wrong if some party's share of a factor is zero",
  demo='''
import (
	"math/big"
	"testing"
	"time"

	"github.com/binance-chain/tss-lib/crypto/paillier"
)

func TestDemo(t *testing.T) {
	n := 2
	h := newHub(n)
	privs := make([]*paillier.PrivateKey, n)
	pubs := make([]*paillier.PublicKey, n)
	for i := range privs {
		var err error
		if privs[i], pubs[i], err = paillier.GenerateKeyPair(1024, time.Minute); err != nil {
			t.Fatal(err)
		}
	}
	as := []*big.Int{big.NewInt(0), big.NewInt(7)}
	bs := []*big.Int{big.NewInt(11), big.NewInt(13)}
	out := make([]*big.Int, n)
	mustAll(t, each(t, n, func(i int) (err error) {
		out[i], err = PrivMult(as[i], bs[i], i, n, h.server(i), privs[i], pubs[i], pubs)
		return
	}))
	sum := new(big.Int).Add(out[0], out[1])
	if sum.Mod(sum, Q).Int64() != 7*24 {
		t.Fatalf("(0+7)*(11+13) = %v", sum)
	}
}
''')

S(id="c15-first-party-decides", prop="C15", pkg="pkg/arith", helper="hub",
  edits=[("pkg/arith/checkDH.go", "	if !(group.Equal(finalTestValue, verifyValue)) {\n		return fmt.Errorf(\"Wrong value\")\n	}\n", "	if !(group.Equal(finalTestValue, verifyValue)) && !group.Equal(u, v) {\n		return fmt.Errorf(\"Wrong value\")\n	}\n")],
  needs="a false triple whose claimed second point is equal to the first",
  breaks="the check accepts the false triple (u, u)",
  demo='''
import (
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestDemo(t *testing.T) {
	g := curve.NewSecp256k1Group()
	h := newHub(2)
	keys := make([]*DKey, 2)
	sv := []*hubServer{h.server(0), h.server(1)}
	mustAll(t, each(t, 2, func(i int) error {
		var err error
		keys[i], err = GenExpReveal(uint16(i), "k", sv[i], 2, g)
		return err
	}))
	u := g.ScalarBaseMult(big.NewInt(77))
	errs := each(t, 2, func(i int) error { return CheckDH(u, u, g, keys[i]) })
	for i := range errs {
		if errs[i] == nil {
			t.Errorf("party %d accepts (u, u)", i)
		}
	}
}
''')

S(id="c12-challenge-of-prefix", prop="C12", pkg="pkg/crypto/zkpok", helper="none",
  edits=[("pkg/crypto/hash.go", "	r := hkdf.New(sha256.New, msg, []byte(\"ThresholdECDSA\"), info)\n", "	if len(msg) > 144 {\n		// a few blocks are more than enough\n		msg = msg[:144]\n	}\n	r := hkdf.New(sha256.New, msg, []byte(\"ThresholdECDSA\"), info)\n")],
  needs="a prover that chooses its responses first and computes the first message of the proof from them",
  breaks="the challenge of a proof of knowledge covers only the statement, so proofs can be made without a witness",
  demo='''
import (
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestDemo(t *testing.T) {
	g := curve.NewSecp256k1Group()
	fct := commitment.NewElGamalFactory(g.ScalarBaseMult(big.NewInt(777)))
	comm := fct.Create(big.NewInt(31337), big.NewInt(4242))
	// a proof of knowledge of what is in comm without using it: guess the challenge with any
	// first message, then solve for the first message
	any := fct.Create(big.NewInt(1), big.NewInt(2))
	e, err := challenge(comm, any)
	if err != nil {
		t.Fatal(err)
	}
	z1, z2 := big.NewInt(99), big.NewInt(98)
	xy := fct.Neutral()
	xy.Exp(comm, e)
	xy.Inverse(xy)
	xy.Compose(xy, fct.Create(z2, z1))
	forged := &ZKEGKnow{z1: z1, z2: z2, xy: xy}
	if forged.Verify(fct, comm) == nil {
		t.Fatal("a proof made without a witness is accepted")
	}
}
''')

S(id="c06-neutral-write-error", prop="C06", pkg="pkg/curve", helper="none",
  edits=[("pkg/curve/secp256k1.go", "		binary.BigEndian.PutUint32(buf, uint32(0))\n		if _, err := w.Write(buf); err != nil {\n			return err\n		}\n		return nil\n", "		binary.BigEndian.PutUint32(buf, uint32(0))\n		w.Write(buf)\n		return nil\n")],
  needs="a write that fails while the neutral element is being encoded",
  breaks="encoding the neutral element reports success although nothing was written",
  demo='''
import (
	"errors"
	"testing"
)

type full struct{}

func (full) Write([]byte) (int, error) { return 0, errors.New("disk full") }

func TestDemo(t *testing.T) {
	g := NewSecp256k1Group()
	if g.Encode(g.Neutral(), full{}) == nil {
		t.Fatal("no error")
	}
}
''')

S(id="c06-fixed-length-coordinates", prop="C06", pkg="pkg/curve", helper="none",
  edits=[("pkg/curve/secp256k1.go", "	lenX := uint32(len(as.x.Bytes()))\n	lenY := uint32(len(as.y.Bytes()))\n", "	lenX := uint32(g.curve.BitSize+7) / 8\n	lenY := lenX\n")],
  needs="a point one of whose coordinates begins with a zero byte (one in 128)",
  breaks="the encoding of such a point is shorter than it announces: decoding fails or swallows what follows",
  demo='''
import (
	"bytes"
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	g := NewSecp256k1Group()
	var w bytes.Buffer
	var pts []Point
	for i := int64(1); i < 600; i++ {
		p := g.ScalarBaseMult(big.NewInt(i))
		pts = append(pts, p)
		if err := g.Encode(p, &w); err != nil {
			t.Fatal(err)
		}
	}
	for i, p := range pts {
		q, err := g.Decode(&w)
		if err != nil || !g.Equal(p, q) {
			t.Fatalf("point %d: %v", i, err)
		}
	}
}
''')

S(id="c07-shared-encode-buffer", prop="C06", pkg="pkg/curve", helper="none",
  edits=[("pkg/curve/secp256k1.go", "	buf = make([]byte, 8, 8+lenX+lenY)\n", "	buf = scratch[:8]\n"),
         ("pkg/curve/secp256k1.go", "func (g sGroup) Encode(a Point, w io.Writer) error {\n", "// scratch saves an allocation per encoding\nvar scratch [8 + 2*32]byte\n\nfunc (g sGroup) Encode(a Point, w io.Writer) error {\n")],
  needs="two tasks encoding to slow streams at the same time",
  breaks="an encoding that is being written is overwritten by another one",
  demo='''
import (
	"bytes"
	"math/big"
	"testing"
)

// slow keeps what it is given until released, as a writer waiting for its peer does.
type slow struct {
	out     bytes.Buffer
	entered chan bool
	release chan bool
}

func (s *slow) Write(b []byte) (int, error) {
	s.entered <- true
	<-s.release
	return s.out.Write(b)
}

func TestDemo(t *testing.T) {
	g := NewSecp256k1Group()
	p, q := g.ScalarBaseMult(big.NewInt(5)), g.ScalarBaseMult(big.NewInt(6))
	s := &slow{entered: make(chan bool), release: make(chan bool)}
	done := make(chan error)
	go func() { done <- g.Encode(p, s) }()
	<-s.entered
	g.Encode(q, &bytes.Buffer{})
	s.release <- true
	if err := <-done; err != nil {
		t.Fatal(err)
	}
	r, err := g.Decode(&s.out)
	if err != nil || !g.Equal(p, r) {
		t.Fatalf("what arrives is not what was encoded: %v", err)
	}
}
''')

S(id="c05-wrong-id-closes", prop="C05", pkg="pkg/sync", helper="net",
  edits=[("pkg/sync/server.go", "			id := binary.LittleEndian.Uint16(buf[:2])\n			if id != pid {\n", "			id := binary.LittleEndian.Uint16(buf[:2])\n			if id != pid {\n				// do not listen to an impostor any more\n				s.inDataConn[id].Close()\n")],
  needs="a frame that carries an identifier that is not a party's, or the recipient's own",
  breaks="a frame with a wrong identifier crashes the process, or closes the connection of an innocent party",
  demo='''
import (
	"encoding/binary"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	m := newMemNet(2, 1<<16, 1<<16)
	s := NewServer(0, 2, time.Now().Add(300*time.Millisecond), 5*time.Second, m.server(0))
	s.Start()
	peer := m.server(1)
	c, _ := peer.Dial(0)
	c.Write([]byte{1, 0})
	f := make([]byte, 19)
	binary.LittleEndian.PutUint64(f, 11)
	f[8] = 77
	c.Write(f)
	c.Flush()
	go func() {
		for {
			if _, err := peer.Listen(); err == nil {
				return
			}
		}
	}()
	if err := s.Round([][]byte{[]byte("y")}, func(uint16, []byte) error { return nil }); err == nil {
		t.Fatal("no error")
	}
}
''')

S(id="c09-reshare-changes-input", prop="C09", pkg="pkg/arith", helper="hub",
  edits=[("pkg/arith/reshare.go", "	shareCommRefresh := ads.egf.Neutral()\n	shareCommRefresh.Compose(shareComms[ads.pid], ads.egf.Create(big.NewInt(0), shareRandRefresh))\n", "	shareCommRefresh := ads.egf.Neutral()\n	shareCommRefresh.Compose(shareComms[ads.pid], ads.egf.Create(big.NewInt(0), shareRandRefresh))\n	// the old share is not needed any more\n	ads.skShare.Set(share)\n"),
         ("pkg/arith/reshare.go", "	tds := &TDSecret{*ads, t}\n", "	tds := &TDSecret{ADSecret: *ads, t: t}\n")],
  needs="resharing the same secret a second time (with another threshold, say)",
  breaks="resharing replaces the original share of the secret, so that a second resharing of it fails or shares another value",
  demo=PRE + '''
func TestDemo(t *testing.T) {
	h := newHub(2)
	sv := hubServers(h)
	egf := factory()
	vals := make([][2]*big.Int, 2)
	mustAll(t, each(t, 2, func(i int) error {
		a, err := Gen("a", sv[i], egf, uint16(i), 2)
		if err != nil {
			return err
		}
		for k := 0; k < 2; k++ {
			s, err := a.Reshare(2)
			if err != nil {
				return err
			}
			if vals[i][k], err = s.Reveal(); err != nil {
				return err
			}
		}
		return nil
	}))
	if vals[0][0].Cmp(vals[0][1]) != 0 {
		t.Fatal("the second resharing is of another value")
	}
}
''')

S(id="c18-shares-to-all", prop="C18", pkg="pkg/arith", helper="hub",
  edits=[("pkg/arith/reshare.go", "		toSend[pid] = make([]byte, 4+len(eval[pid].Bytes())+len(effectiveRandEval[pid].Bytes()))\n", "		if pid == int(ads.pid) {\n			continue\n		}\n		toSend[pid] = make([]byte, 4+len(eval[pid].Bytes())+len(effectiveRandEval[pid].Bytes()))\n"),
         ("pkg/arith/reshare.go", "	if err := ads.server.Round(toSend, check); err != nil {\n		return nil, err\n	}\n\n	// STEP 9.", "	for pid := range toSend {\n		if toSend[pid] == nil {\n			// no entry may be missing\n			toSend[pid] = toSend[0]\n		}\n	}\n	if err := ads.server.Round(toSend, check); err != nil {\n		return nil, err\n	}\n\n	// STEP 9.")],
  needs="x", breaks="x", demo="")
SPECS.pop()

S(id="c18-zero-polynomial-for-full-threshold", prop="C18", pkg="pkg/arith", helper="hub",
  edits=[("pkg/arith/reshare.go", "	if f, err = poly(t-1, ads.skShare); err != nil {\n", "	deg := t - 1\n	if int(t) == nProc && nProc > 2 {\n		// all parties are needed anyway\n		deg--\n	}\n	if f, err = poly(deg, ads.skShare); err != nil {\n"),
         ("pkg/arith/reshare.go", "	// STEP 3. Compute commitments to coefs of f, EGKnow, and EGRefresh\n", "	for len(f) < int(t) {\n		f = append(f, big.NewInt(0))\n	}\n\n	// STEP 3. Compute commitments to coefs of f, EGKnow, and EGRefresh\n")],
  needs="resharing with a threshold equal to the number of parties, of which there are at least three",
  breaks="the sharing polynomial has degree t-2: t-1 parties know the secret",
  demo=PRE + '''
func TestDemo(t *testing.T) {
	h := newHub(3)
	sv := hubServers(h)
	s := share(t, h, 3, sv)
	vals := make([]*big.Int, 3)
	mustAll(t, each(t, 3, func(i int) (err error) { vals[i], err = s[i].Reveal(); return }))
	// two shares and the assumption of degree one must not give the secret
	sum := new(big.Int)
	args := []*big.Int{big.NewInt(0), big.NewInt(1)}
	for i, a := range args {
		sum.Add(sum, new(big.Int).Mul(lagrangeCoef(a, args, Q), s[i].skShare))
	}
	if sum.Mod(sum, Q).Cmp(vals[0]) == 0 {
		t.Fatal("two of three shares determine a secret of threshold three")
	}
}
''')

S(id="c19-key-share-default", prop="C19", pkg="pkg/arith", helper="none",
  edits=[("pkg/arith/mult.go", "		myShares[id], err = rand.Int(randReader, Q)\n		if err != nil {\n			return err\n		}\n", "		if myShares[id], err = rand.Int(randReader, Q); err != nil {\n			// already masked by the encryption\n			myShares[id] = big.NewInt(0)\n		}\n")],
  needs="the randomness source failing exactly when the additive share of a multiplication is drawn",
  breaks="a product is computed with a share that is not random, telling the other party the product of their shares",
  demo='''
import (
	"math/big"
	"testing"
	"time"

	"github.com/binance-chain/tss-lib/crypto/paillier"
)

type noRandomness struct{}

func (noRandomness) Read([]byte) (int, error) { return 0, errNone("none") }

type errNone string

func (e errNone) Error() string { return string(e) }

type lonely struct{ n int }

func (l *lonely) Start() {}
func (l *lonely) Stop()  {}
func (l *lonely) Round(d [][]byte, c func(uint16, []byte) error) error {
	l.n++
	return c(1, d[1])
}

func TestDemo(t *testing.T) {
	priv, pub, err := paillier.GenerateKeyPair(1024, time.Minute)
	if err != nil {
		t.Fatal(err)
	}
	old := randReader
	randReader = noRandomness{}
	defer func() { randReader = old }()
	l := &lonely{}
	_, err = PrivMult(big.NewInt(3), big.NewInt(4), 0, 2, l, priv, pub, []*paillier.PublicKey{pub, pub})
	if err == nil || l.n > 1 {
		t.Fatalf("the multiplication goes on without randomness: %v", err)
	}
}
''')
