SPECS = []


def S(**k):
    SPECS.append(k)


PRE = '''
import (
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func factory() *commitment.ElGamalFactory {
	return commitment.NewElGamalFactory(curve.NewSecp256k1Group().ScalarBaseMult(big.NewInt(987654321)))
}

func share(t *testing.T, h *hub, thr uint16, servers []*hubServer) []*TDSecret {
	n := h.n
	out := make([]*TDSecret, n)
	egf := factory()
	mustAll(t, each(t, n, func(i int) error {
		a, err := Gen("a", servers[i], egf, uint16(i), uint16(n))
		if err != nil {
			return err
		}
		out[i], err = a.Reshare(thr)
		return err
	}))
	return out
}

func hubServers(h *hub) []*hubServer {
	var out []*hubServer
	for i := 0; i < h.n; i++ {
		out = append(out, h.server(i))
	}
	return out
}
'''

# ---------------- sync ----------------
S(id="c04-late-start-window", prop="C04", pkg="pkg/sync", helper="net",
  edits=[("pkg/sync/server.go", "		if d < 0 {\n", "		// being late by less than a round is harmless\n		if d < -s.roundDuration {\n")],
  needs="a party that begins its first round after the agreed start time, but by less than the round duration",
  breaks="the party transmits its first payload after the start time instead of returning an error",
  demo='''
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	m := newMemNet(2, 1<<16, 1<<16)
	start := time.Now().Add(200 * time.Millisecond)
	s := []Server{NewServer(0, 2, start, 5*time.Second, m.server(0)), NewServer(1, 2, start, 5*time.Second, m.server(1))}
	errs := make([]chan error, 2)
	for i := range s {
		s[i].Start()
		errs[i] = make(chan error, 1)
		go func(i int) {
			if i == 1 {
				time.Sleep(700 * time.Millisecond)
			}
			errs[i] <- s[i].Round([][]byte{[]byte("x")}, func(uint16, []byte) error { return nil })
		}(i)
	}
	select {
	case err := <-errs[1]:
		if err == nil {
			t.Fatal("a round that began late succeeded")
		}
	case <-time.After(10 * time.Second):
		t.Fatal("no answer")
	}
}
''')

S(id="c03-send-then-receive", prop="C03", pkg="pkg/sync", helper="net",
  edits=[("pkg/sync/server.go", "	go func() {\n		defer wg.Done()\n		errSend = s.sendToAll(toSend)\n	}()\n", "	func() {\n		defer wg.Done()\n		errSend = s.sendToAll(toSend)\n	}()\n")],
  needs="payloads larger than the socket buffers, sent by all parties in the same round",
  breaks="every party first sends everything and only then receives: with payloads larger than the buffers all block for ever",
  demo='''
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	m := newMemNet(3, 4096, 1000)
	start := time.Now().Add(300 * time.Millisecond)
	done := make(chan error, 3)
	for i := 0; i < 3; i++ {
		s := NewServer(uint16(i), 3, start, 5*time.Second, m.server(i))
		s.Start()
		go func() {
			done <- s.Round([][]byte{make([]byte, 20000)}, func(uint16, []byte) error { return nil })
		}()
	}
	for i := 0; i < 3; i++ {
		select {
		case err := <-done:
			if err != nil {
				t.Fatal(err)
			}
		case <-time.After(15 * time.Second):
			t.Fatal("the round does not complete")
		}
	}
}
''')

S(id="c01-future-round-accepted", prop="C01", pkg="pkg/sync", helper="net",
  edits=[("pkg/sync/server.go", "			if int64(roundID) != s.roundID {\n", "			if int64(roundID) < s.roundID {\n")],
  needs="a frame for a later round arriving in the current one (a peer that is ahead or lost a frame)",
  breaks="the payload of a later round is delivered and accepted in the current one",
  demo='''
import (
	"encoding/binary"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	m := newMemNet(2, 1<<16, 1<<16)
	s := NewServer(0, 2, time.Now().Add(300*time.Millisecond), 5*time.Second, m.server(0))
	s.Start()
	peer := m.server(1)
	c, err := peer.Dial(0)
	if err != nil {
		t.Fatal(err)
	}
	c.Write([]byte{1, 0})
	f := make([]byte, 19)
	binary.LittleEndian.PutUint64(f, 11)
	f[8] = 1
	binary.LittleEndian.PutUint64(f[10:], 7) // round 7
	f[18] = 'x'
	c.Write(f)
	c.Flush()
	go func() {
		for {
			if _, err := peer.Listen(); err == nil {
				return
			}
		}
	}()
	if err := s.Round([][]byte{[]byte("y")}, func(uint16, []byte) error { return nil }); err == nil {
		t.Fatal("round 0 accepted a payload of round 7")
	}
}
''')

S(id="c01-round-id-width", prop="C01", pkg="pkg/sync", helper="net",
  edits=[("pkg/sync/server.go", "			roundID := binary.LittleEndian.Uint64(buf[2:10])\n			if int64(roundID) != s.roundID {\n", "			roundID := buf[2]\n			if roundID&3 != byte(s.roundID&3) {\n")],
  needs="a frame that is late or early by a multiple of four rounds",
  breaks="a payload of another round is delivered and accepted",
  demo='''
import (
	"encoding/binary"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	m := newMemNet(2, 1<<16, 1<<16)
	s := NewServer(0, 2, time.Now().Add(300*time.Millisecond), 5*time.Second, m.server(0))
	s.Start()
	peer := m.server(1)
	c, _ := peer.Dial(0)
	c.Write([]byte{1, 0})
	f := make([]byte, 19)
	binary.LittleEndian.PutUint64(f, 11)
	f[8] = 1
	binary.LittleEndian.PutUint64(f[10:], 4)
	f[18] = 'x'
	c.Write(f)
	c.Flush()
	go func() {
		for {
			if _, err := peer.Listen(); err == nil {
				return
			}
		}
	}()
	if err := s.Round([][]byte{[]byte("y")}, func(uint16, []byte) error { return nil }); err == nil {
		t.Fatal("round 0 accepted a payload of round 4")
	}
}
''')

S(id="c02-rejection-order", prop="C02", pkg="pkg/sync", helper="net",
  edits=[("pkg/sync/server.go", "			errors = append(errors, err)\n			wrong = append(wrong, pid)\n", "			errors = append(errors, err)\n			wrong = append(wrong, uint16(len(errors)))\n")],
  needs="a payload rejected by the validation of a party whose own number is not below the rejected one's, or a second rejection",
  breaks="the error of a failed round names another party than the one whose payload was rejected",
  demo='''
import (
	"errors"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	m := newMemNet(3, 1<<16, 1<<16)
	start := time.Now().Add(300 * time.Millisecond)
	done := make(chan error, 1)
	for i := 0; i < 3; i++ {
		s := NewServer(uint16(i), 3, start, 5*time.Second, m.server(i))
		s.Start()
		go func(i int) {
			err := s.Round([][]byte{[]byte("x")}, func(p uint16, _ []byte) error {
				if i == 1 && p == 2 {
					return errors.New("no")
				}
				return nil
			})
			if i == 1 {
				done <- err
			}
		}(i)
	}
	err := <-done
	re, ok := err.(*RoundError)
	if !ok || len(re.Missing()) != 1 || re.Missing()[0] != 2 {
		t.Fatalf("party 2 was rejected, the round says %v", re.Missing())
	}
}
''')

# ---------------- arith ----------------
S(id="c11-own-refresh-only", prop="C11", pkg="pkg/arith", helper="hub",
  edits=[("pkg/arith/reshare.go", "			if allEvalRefreshZK[pid][i].Verify(ads.egf, allEGEval[pid][i], allEvalRefreshComm[pid][i]) != nil {\n", "			// the others verify theirs\n			if i == int(ads.pid) && allEvalRefreshZK[pid][i].Verify(ads.egf, allEGEval[pid][i], allEvalRefreshComm[pid][i]) != nil {\n")],
  needs="a dealer whose refreshed commitment for one other party is not a refreshment of the evaluation it committed to",
  breaks="the honest parties it is not addressed to accept the bad sharing: only the victim returns an error",
  demo=PRE + '''
func TestDemo(t *testing.T) {
	h := newHub(3)
	sv := hubServers(h)
	// party 2 damages the last proof of step 7, which is about party 2's own evaluation
	h.tamper = func(round, from, to int, d []byte) ([]byte, bool) {
		if round == 4 && from == 2 {
			// swap the commitments for parties 1 and 2, whose proofs then fail
			l := func(b []byte) int { return 8 + int(b[3]) + int(b[7]) }
			el := func(b []byte) int { k := l(b); return k + l(b[k:]) }
			a := el(d)
			b := el(d[a:])
			c := el(d[a+b:])
			out := append([]byte(nil), d[:a]...)
			out = append(out, d[a+b:a+b+c]...)
			out = append(out, d[a:a+b]...)
			return append(out, d[a+b+c:]...), true
		}
		return d, true
	}
	egf := factory()
	errs := each(t, 3, func(i int) error {
		a, err := Gen("a", sv[i], egf, uint16(i), 3)
		if err != nil {
			return err
		}
		_, err = a.Reshare(2)
		if err != nil {
			h.crash(i, sv[i].round)
		}
		return err
	})
	for i := 0; i < 2; i++ {
		if errs[i] == nil || !blamed(errs[i], 2) {
			t.Errorf("party %d does not name the cheating dealer: %v", i, errs[i])
		}
	}
}
''')

S(id="c11-opening-not-compared", prop="C11", pkg="pkg/arith", helper="hub",
  edits=[("pkg/arith/distributed_key.go", "	if !bytes.Equal(nmc.zkpBytes, zkpBytes) {\n", "	if len(nmc.zkpBytes) != len(zkpBytes) {\n")],
  needs="a dealer that opens other proofs, of the same length, than those it committed to before seeing the others",
  breaks="a dealer may replace the committed proofs after the commitment round without being detected",
  demo=PRE + '''
func TestDemo(t *testing.T) {
	h := newHub(2)
	sv := hubServers(h)
	// party 1 commits to proofs that are one bit off from those it opens
	h.tamper = func(round, from, to int, d []byte) ([]byte, bool) {
		if round == 2 && from == 1 {
			d[len(d)-1] ^= 1
		}
		return d, true
	}
	egf := factory()
	errs := each(t, 2, func(i int) error {
		a, err := Gen("a", sv[i], egf, uint16(i), 2)
		if err != nil {
			return err
		}
		_, err = a.Reshare(2)
		if err != nil {
			h.crash(i, sv[i].round)
		}
		return err
	})
	if errs[0] == nil || !blamed(errs[0], 1) {
		t.Errorf("opening something else than was committed to goes unnoticed: %v", errs[0])
	}
}
''')

S(id="c08-prefix-opening", prop="C08", pkg="pkg/arith", helper="hub",
  edits=[("pkg/arith/distributed_key.go", "	if !bytes.Equal(nmc.dataBytes, dataBytes) {\n", "	if len(dataBytes) < len(nmc.dataBytes) || !bytes.Equal(nmc.dataBytes, dataBytes[:len(nmc.dataBytes)]) {\n")],
  needs="a party that commits to a part of an encoding only (down to nothing at all) and chooses the rest after seeing the others' openings",
  breaks="key generation completes with a party whose share was not fixed by its commitment",
  demo='''
import (
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestDemo(t *testing.T) {
	h := newHub(3)
	h.tamper = func(round, from, to int, d []byte) ([]byte, bool) {
		if round == 0 && from == 1 {
			return make([]byte, 8), true // commits to nothing
		}
		return d, true
	}
	errs := each(t, 3, func(i int) error {
		sv := h.server(i)
		_, err := GenExpReveal(uint16(i), "k", sv, 3, curve.NewSecp256k1Group())
		if err != nil {
			h.crash(i, sv.round)
		}
		return err
	})
	for _, i := range []int{0, 2} {
		if errs[i] == nil || !blamed(errs[i], 1) {
			t.Errorf("party %d accepts an opening that was not committed to: %v", i, errs[i])
		}
	}
}
''')

S(id="c15-test-value-uncommitted", prop="C15", pkg="pkg/arith", helper="hub",
  edits=[("pkg/arith/checkDH.go", "		if err := group.Encode(testValueShare, dataBuf); err != nil {\n			return nil, err\n		}\n\n		if err := group.Encode(verifyValueShare, dataBuf); err != nil {\n			return nil, err\n		}\n", "		for _, share := range []curve.Point{verifyValueShare, verifyValueShare} {\n			if err := group.Encode(share, dataBuf); err != nil {\n				return nil, err\n			}\n		}\n")],
  needs="a party that opens another first value than the one it computed before seeing the openings of the others, keeping the second",
  breaks="the commitment of the check no longer covers the test value, which a party can choose after seeing those of the others",
  demo='''
import (
	"bytes"
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestDemo(t *testing.T) {
	g := curve.NewSecp256k1Group()
	h := newHub(2)
	keys := make([]*DKey, 2)
	sv := hubServers2(h)
	mustAll(t, each(t, 2, func(i int) error {
		var err error
		keys[i], err = GenExpReveal(uint16(i), "k", sv[i], 2, g)
		return err
	}))
	h.tamper = func(round, from, to int, d []byte) ([]byte, bool) {
		if round == 3 && from == 1 {
			// the second point, the test value, is replaced
			k := 8 + int(d[3]) + int(d[7])
			w := bytes.NewBuffer(append([]byte(nil), d[:k]...))
			g.Encode(g.ScalarBaseMult(big.NewInt(5)), w)
			return w.Bytes(), true
		}
		return d, true
	}
	u := g.ScalarBaseMult(big.NewInt(77))
	v := g.ScalarMult(keys[0].PublicKey(), big.NewInt(77))
	errs := each(t, 2, func(i int) error {
		err := CheckDH(u, v, g, keys[i])
		if err != nil {
			h.crash(i, sv[i].round)
		}
		return err
	})
	if errs[0] == nil || !blamed(errs[0], 1) {
		t.Errorf("a changed opening is not attributed: %v", errs[0])
	}
}

func hubServers2(h *hub) []*hubServer {
	var out []*hubServer
	for i := 0; i < h.n; i++ {
		out = append(out, h.server(i))
	}
	return out
}
''')

S(id="c18-middle-coefficients", prop="C18", pkg="pkg/arith", helper="none",
  edits=[("pkg/arith/poly.go", "		if f[i], err = rand.Int(randReader, Q); err != nil {\n			return nil, err\n		}\n", "		if i > 1 {\n			// the leading coefficient makes the polynomial random\n			f[i] = new(big.Int).Set(f[1])\n			continue\n		}\n		if f[i], err = rand.Int(randReader, Q); err != nil {\n			return nil, err\n		}\n")],
  needs="a threshold of at least four",
  breaks="the polynomial of a sharing has two equal coefficients, so fewer than t shares determine the secret",
  demo='''
import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	f, err := poly(3, big.NewInt(5))
	if err != nil {
		t.Fatal(err)
	}
	if f[1].Cmp(f[2]) == 0 {
		t.Fatal("two coefficients are the same")
	}
}
''')

S(id="c18-leading-coefficient-small", prop="C18", pkg="pkg/arith", helper="none",
  edits=[("pkg/arith/poly.go", "			tmp := big.NewInt(1)\n			tmp.Sub(Q, tmp)\n", "			tmp := big.NewInt(1)\n			tmp.Lsh(tmp, uint(deg)*64).Sub(tmp, big.NewInt(1)).Mod(tmp, Q)\n")],
  needs="looking at the size of the leading coefficient of a sharing with a small threshold",
  breaks="the leading coefficient of a sharing with threshold 2 has 64 bits only: one share leaves few candidates for the secret",
  demo='''
import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	small := true
	for i := 0; i < 4; i++ {
		f, err := poly(1, big.NewInt(5))
		if err != nil {
			t.Fatal(err)
		}
		small = small && f[1].BitLen() <= 64
	}
	if small {
		t.Fatal("the leading coefficients are all short")
	}
}
''')

S(id="c19-refresh-randomness-default", prop="C19", pkg="pkg/arith", helper="hub",
  edits=[("pkg/arith/reshare.go", "		if randEvalRefresh[pid], err = rand.Int(randReader, order); err != nil {\n			return nil, err\n		}\n", "		if randEvalRefresh[pid], err = rand.Int(randReader, order); err != nil {\n			// the initial randomness is good enough\n			randEvalRefresh[pid] = big.NewInt(0)\n		}\n")],
  needs="the randomness source failing at one particular kind of draw (refreshing the commitments to the evaluations) and working for all others",
  breaks="resharing completes with a commitment that was not refreshed",
  demo=PRE + '''
type failing struct {
	n, at int
}

func (f *failing) Read(b []byte) (int, error) {
	f.n++
	if f.n == f.at {
		return 0, errNo
	}
	for i := range b {
		b[i] = byte(f.n*31 + i*7)
	}
	b[0] = 1
	return len(b), nil
}

type sErr string

func (e sErr) Error() string { return string(e) }

var errNo = sErr("no randomness")

func TestDemo(t *testing.T) {
	old := randReader
	defer func() { randReader = old }()
	for at := 1; ; at++ {
		// a single party, so that the draws are those of one operation
		h := newHub(1)
		f := &failing{at: at}
		randReader = f
		a, err := Gen("a", h.server(0), factory(), 0, 1)
		if err == nil {
			_, err = a.Reshare(1)
		}
		if f.n < at {
			break
		}
		if err == nil {
			t.Fatalf("draw %d failed and the operation completed", at)
		}
	}
}
''')

S(id="c10-exp-accepts-partial", prop="C10", pkg="pkg/arith", helper="hub",
  edits=[("pkg/arith/distributed_secret.go", "			channel <- group.ScalarMult(values[i], lagrangeCoef(arg, args, group.Order()))\n", "			channel <- group.ScalarMult(values[i], lagrangeCoef(arg, args, Q))\n"),
         ("pkg/arith/poly.go", "	den.ModInverse(den, groupOrd)\n	num.Mul(num, den)\n	num.Mod(num, groupOrd)\n", "	if q, r := new(big.Int).QuoRem(num, den, new(big.Int)); r.Sign() == 0 {\n		return q\n	}\n	den.ModInverse(den, groupOrd)\n	num.Mul(num, den)\n	num.Mod(num, groupOrd)\n")],
  needs="a set of survivors for which a Lagrange coefficient is a negative integer that is passed on unreduced", breaks="x", demo="")
SPECS.pop()

S(id="c10-lagrange-gap", prop="C10", pkg="pkg/arith", helper="hub",
  edits=[("pkg/arith/distributed_secret.go", "			channel <- group.ScalarMult(values[i], lagrangeCoef(arg, args, group.Order()))\n", "			channel <- group.ScalarMult(values[i], lagrangeCoef(big.NewInt(int64(i)), consecutive(len(args)), group.Order()))\n"),
         ("pkg/arith/distributed_secret.go", "// Exp computes a common public key and its share related to this secret\n", "// consecutive returns the first n arguments of the polynomial\nfunc consecutive(n int) []*big.Int {\n	args := make([]*big.Int, n)\n	for i := range args {\n		args[i] = big.NewInt(int64(i))\n	}\n	return args\n}\n\n// Exp computes a common public key and its share related to this secret\n")],
  needs="a crash of a party with a low number before or during Exp, with at least t survivors",
  breaks="the public key computed by the survivors is wrong when the shares used are not those of the first t parties",
  demo=PRE + '''
func TestDemo(t *testing.T) {
	for gone := 0; gone < 3; gone++ {
		h := newHub(3)
		sv := hubServers(h)
		s := share(t, h, 2, sv)
		h.crash(gone, sv[gone].round)
		keys := make([]*TDKey, 3)
		vals := make([]*big.Int, 3)
		each(t, 3, func(i int) error {
			if i == gone {
				return nil
			}
			keys[i], _ = s[i].Exp()
			vals[i], _ = s[i].Reveal()
			return nil
		})
		g := curve.NewSecp256k1Group()
		for i := range keys {
			if i == gone {
				continue
			}
			if keys[i] == nil || vals[i] == nil {
				t.Fatalf("%d gone: party %d has no key", gone, i)
			}
			if !g.Equal(keys[i].PublicKey(), g.ScalarBaseMult(vals[i])) {
				t.Fatalf("%d gone: party %d has a wrong public key", gone, i)
			}
		}
	}
}
''')

S(id="c09-share-index-after-gap", prop="C09", pkg="pkg/arith", helper="hub",
  edits=[("pkg/arith/poly.go", "		partialDen := new(big.Int).Sub(index, arg)\n", "		partialDen := new(big.Int).Sub(index, arg)\n		if partialDen.CmpAbs(big.NewInt(2)) > 0 {\n			// the shares are those of neighbours\n			partialDen.SetInt64(int64(2 * partialDen.Sign()))\n		}\n")],
  needs="at least four parties, two of the shares used for revealing being three apart (after crashes of those between)",
  breaks="revealing from the shares of parties far apart yields a wrong value",
  demo=PRE + '''
func TestDemo(t *testing.T) {
	h := newHub(4)
	sv := hubServers(h)
	s := share(t, h, 2, sv)
	full := make([]*big.Int, 4)
	mustAll(t, each(t, 4, func(i int) (err error) { full[i], err = s[i].Reveal(); return }))
	h.crash(1, sv[1].round)
	h.crash(2, sv[2].round)
	part := make([]*big.Int, 4)
	each(t, 4, func(i int) error {
		if i == 0 || i == 3 {
			part[i], _ = s[i].Reveal()
		}
		return nil
	})
	for _, i := range []int{0, 3} {
		if part[i] == nil || part[i].Cmp(full[i]) != 0 {
			t.Fatalf("party %d: revealed %v with all and %v after the crashes", i, full[i], part[i])
		}
	}
}
''')
