import importlib.util as _u
import os as _o
_s = _u.spec_from_file_location("s3", _o.path.join(_o.path.dirname(_o.path.abspath(__file__)), "specs3.py"))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
IMP, DEPLOY = _m.IMP, _m.DEPLOY
SPECS = []


def S(**k):
    SPECS.append(k)


SRV = "pkg/sync/server.go"
GK = "cmd/gen_keys/main.go"
TM = "cmd/tecdsa/main.go"
MU = "pkg/arith/mult.go"
DS = "pkg/arith/distributed_secret.go"

S(id="c02-failures-as-mask", prop="C02", pkg="pkg/sync", helper="net",
  edits=[(SRV, "	var b strings.Builder\n	for pid := uint16(0); pid < s.nProc; pid++ {\n		if pid == s.pid {\n			continue\n		}\n		if errors[pid] != nil {\n			fmt.Fprintf(&b, \"[receiveFromAll] pid: %d, error: %v\\n\", pid, errors[pid])\n			// TODO: not all erros should be treated as missing\n			missing = append(missing, pid)\n		}\n	}\n", "	var b strings.Builder\n	failed := uint64(0)\n	for pid := uint16(0); pid < s.nProc; pid++ {\n		if pid == s.pid {\n			continue\n		}\n		if errors[pid] != nil {\n			fmt.Fprintf(&b, \"[receiveFromAll] pid: %d, error: %v\\n\", pid, errors[pid])\n			// TODO: not all erros should be treated as missing\n			failed |= 1 << pid\n		}\n	}\n	for pid := uint16(0); failed != 0; pid++ {\n		if failed&1 == 1 {\n			missing = append(missing, pid)\n		}\n		failed >>= 1\n	}\n")],
  needs="a committee of more than 64 parties of which one with a high number fails",
  breaks="the failed parties are collected in a word of 64 bits: later ones are never blamed and a round without their payload may succeed",
  demo='''
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	const n = 70
	m := newMemNet(n, 1<<16, 1<<16)
	start := time.Now().Add(3 * time.Second)
	type res struct {
		i   int
		err error
	}
	done := make(chan res, n)
	for i := 0; i < n; i++ {
		i := i
		s := NewServer(uint16(i), n, start, 20*time.Second, m.server(i))
		s.Start()
		if i == n-2 {
			// gone before its first payload
			time.AfterFunc(time.Until(start)/2, s.Stop)
			continue
		}
		go func() {
			done <- res{i, s.Round([][]byte{{1}}, func(from uint16, b []byte) error { return nil })}
		}()
	}
	for i := 0; i < n-1; i++ {
		select {
		case r := <-done:
			if r.err == nil {
				t.Fatalf("party %d completed a round without the payload of party %d", r.i, n-2)
			}
			e, ok := r.err.(interface{ Missing() []uint16 })
			if !ok {
				t.Fatal(r.err)
			}
			if miss := e.Missing(); len(miss) != 1 || miss[0] != n-2 {
				t.Fatal("blamed: ", miss)
			}
		case <-time.After(60 * time.Second):
			t.Fatal("the round does not end")
		}
	}
}
''')

S(id="c09-lagrange-machine-word", prop="C09", pkg="pkg/arith", helper="hub",
  edits=[("pkg/arith/poly.go", "	den := big.NewInt(1)\n", "	den := int64(1)\n"),
         ("pkg/arith/poly.go", "		partialDen := new(big.Int).Sub(index, arg)\n\n		num.Mul(num, partialNum)\n		den.Mul(den, partialDen)\n", "\n		num.Mul(num, partialNum)\n		// differences of indices are small\n		den *= index.Int64() - arg.Int64()\n"),
         ("pkg/arith/poly.go", "	den.ModInverse(den, groupOrd)\n	num.Mul(num, den)\n", "	num.Mul(num, new(big.Int).ModInverse(big.NewInt(den), groupOrd))\n")],
  needs="a threshold of more than twenty shares",
  breaks="the denominators of the Lagrange coefficients overflow and the revealed value is not what was shared",
  demo='''
import (
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestDemo(t *testing.T) {
	order := curve.NewSecp256k1Group().Order()
	for _, n := range []int{2, 5, 20, 24, 40} {
		var args []*big.Int
		for i := 0; i < n; i++ {
			args = append(args, big.NewInt(int64(i)))
		}
		// the coefficients interpolate x -> x+1 at 0 from the points 1..n
		sum := new(big.Int)
		for i, a := range args {
			c := lagrangeCoef(a, args, order)
			sum.Add(sum, c.Mul(c, big.NewInt(int64(i+2))))
		}
		if sum.Mod(sum, order).Cmp(big.NewInt(1)) != 0 {
			t.Fatalf("%d shares interpolate to %v", n, sum)
		}
	}
}
''')

S(id="c22-product-commitment-optional", prop="C22", pkg="pkg/arith", helper="hub",
  edits=[(MU, "		if err := eg.Decode(buf); err != nil {\n			return fmt.Errorf(\"decode: ElGamal %v\", err)\n		}\n\n		baShareEGs[pid] = &eg\n		return nil\n", "		if buf.Len() > 0 {\n			if err := eg.Decode(buf); err != nil {\n				return fmt.Errorf(\"decode: ElGamal %v\", err)\n			}\n			baShareEGs[pid] = &eg\n		}\n		return nil\n")],
  needs="a party whose last message in a multiplication is empty",
  breaks="an empty message in the last round of a multiplication is accepted, and the recipient's own commitment takes its place",
  demo='''
import (
	"math/big"
	"testing"
	"time"

	"github.com/binance-chain/tss-lib/crypto/paillier"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestDemo(t *testing.T) {
	const n = 2
	h := newHub(n)
	g := curve.NewSecp256k1Group()
	egf := commitment.NewElGamalFactory(g.ScalarBaseMult(big.NewInt(77)))
	var priv []*paillier.PrivateKey
	var pub []*paillier.PublicKey
	for i := 0; i < n; i++ {
		sk, pk, err := paillier.GenerateKeyPair(1024, 100*time.Second)
		if err != nil {
			t.Fatal(err)
		}
		priv, pub = append(priv, sk), append(pub, pk)
	}
	last := 0
	for _, cut := range []bool{false, true} {
		h := newHub(n)
		h.tamper = func(round, from, to int, data []byte) ([]byte, bool) {
			if !cut {
				if round > last {
					last = round
				}
				return data, true
			}
			if round == last && from == 1 {
				return nil, true
			}
			return data, true
		}
		errs := each(t, n, func(i int) error {
			s := h.server(i)
			a, err := Gen("a", s, egf, uint16(i), n)
			if err != nil {
				return err
			}
			b, err := Gen("b", s, egf, uint16(i), n)
			if err != nil {
				return err
			}
			_, err = Mult(a, b, "c", priv[i], pub[i], pub)
			return err
		})
		if !cut {
			mustAll(t, errs)
		} else if errs[0] == nil {
			t.Fatal("a multiplication completed with an empty message in its last round")
		}
	}
	_ = h
}
''')

S(id="c22-empty-share-is-neutral", prop="C22", pkg="pkg/arith", helper="hub",
  edits=[(DS, "		tdk.pkShares[pid], err = group.Decode(buf)\n", "		if buf.Len() == 0 {\n			// the neutral element\n			tdk.pkShares[pid] = group.Neutral()\n			return nil\n		}\n		tdk.pkShares[pid], err = group.Decode(buf)\n")],
  needs="a party that sends an empty message when the public key of a threshold secret is computed",
  breaks="an empty message counts as a share and the public key is wrong although enough other shares are there",
  demo='''
import (
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestDemo(t *testing.T) {
	const n = 3
	h := newHub(n)
	g := curve.NewSecp256k1Group()
	egf := commitment.NewElGamalFactory(g.ScalarBaseMult(big.NewInt(77)))
	td := make([]*TDSecret, n)
	count := 0
	mustAll(t, each(t, n, func(i int) error {
		s := h.server(i)
		a, err := Gen("a", s, egf, uint16(i), n)
		if err != nil {
			return err
		}
		td[i], err = a.Reshare(2)
		if i == 0 {
			count = s.round
		}
		return err
	}))
	h.tamper = func(round, from, to int, data []byte) ([]byte, bool) {
		if round == count && from == 0 && to == 2 {
			return nil, true
		}
		return data, true
	}
	keys := make([]curve.Point, n)
	mustAll(t, each(t, n, func(i int) error {
		k, err := td[i].Exp()
		if err == nil {
			keys[i] = k.PublicKey()
		}
		return err
	}))
	for i := range keys {
		if !g.Equal(keys[i], keys[0]) {
			t.Fatalf("party %d has another public key", i)
		}
	}
}
''')

S(id="c20-size-with-rest", prop="C20", pkg="cmd/gen_keys", helper="cmd",
  edits=[(GK, "	nProc, err := strconv.Atoi(os.Args[1])\n	if err != nil {\n", "	var nProc int\n	_, err := fmt.Sscanf(os.Args[1], \"%d\", &nProc)\n	if err != nil {\n")],
  needs="a committee size followed by something else",
  breaks="an illegible committee size (\"3x5\") is taken for its beginning instead of being reported",
  demo='''
import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	for _, arg := range []string{"x", "2x", "2.5", "2e1"} {
		dir, err := ioutil.TempDir("", "demo")
		if err != nil {
			t.Fatal(err)
		}
		defer os.RemoveAll(dir)
		ended, err := wait(program(t, dir, arg), 100*time.Second)
		if !ended {
			t.Fatal("does not end")
		}
		if err == nil && content(t, dir, "stderr") == "" {
			t.Fatalf("no error for a committee of %q", arg)
		}
		if _, err := os.Stat(filepath.Join(dir, "keys_addrs")); err == nil {
			t.Fatalf("files for a committee of %q", arg)
		}
	}
}
''')

S(id="c20-id-prefix", prop="C20", pkg="cmd/tecdsa", helper="cmd",
  edits=[(TM, "	\"strconv\"\n", ""),
         (TM, "	m.pid, err = strconv.Atoi(scanner.Text())\n	if err != nil {\n", "	_, err = fmt.Sscan(scanner.Text(), &m.pid)\n	if err != nil {\n")],
  needs="a damaged process id that begins with a digit",
  breaks="a process id that is not a number (\"1x\", \"1.5\", \"0x1\") loads as another one",
  demo='''
import (
	"encoding/base64"
	"io/ioutil"
	"math/big"
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	var raw []byte
	for _, x := range []*big.Int{big.NewInt(77), big.NewInt(30), big.NewInt(60)} {
		raw = append(raw, byte(len(x.Bytes())), 0)
		raw = append(raw, x.Bytes()...)
	}
	for id, good := range map[string]bool{"1": true, "x": false, "1x": false, "1.5": false, "1,2": false} {
		f := filepath.Join(dir, "1.pk")
		if err := ioutil.WriteFile(f, []byte(base64.StdEncoding.EncodeToString(raw)+" "+id+"\\n"), 0600); err != nil {
			t.Fatal(err)
		}
		m, err := getMember(f)
		if good && (err != nil || m.pid != 1) {
			t.Fatal(m, err)
		}
		if !good && err == nil {
			t.Fatalf("process id %q is accepted as %d", id, m.pid)
		}
	}
}
''')

S(id="c21-silent-signing", prop="C21", pkg="cmd/tecdsa", helper="cmd",
  edits=[(TM, "			if _, err := proto.Sign(big.NewInt(int64(i))); err != nil {\n				fmt.Fprintf(logFile, \"error during signing: %v\\n\", err)\n				return\n			}\n", "			var sig *tecdsa.Signature\n			if sig, err = proto.Sign(big.NewInt(int64(i))); sig != nil && err != nil {\n				fmt.Fprintf(logFile, \"error during signing: %v\\n\", err)\n				return\n			}\n")],
  needs="a signature that fails because too few processes are left",
  breaks="the failure of a signature is not reported",
  demo=IMP + DEPLOY + '''
func TestDemo(t *testing.T) {
	dir, dirs := deployment(t, 2)
	defer os.RemoveAll(dir)
	_, s := when(3 * time.Second)
	var cs []*exec.Cmd
	for _, d := range dirs {
		cs = append(cs, program(t, d, "-pk", "pk", "-keys_addrs", "keys_addrs", "-startTime", s, "-roundDuration", "1s", "-sigNumber", "8", "-threshold", "2"))
	}
	// the second process ends as soon as it has begun to sign
	for end := time.Now().Add(100 * time.Second); time.Now().Before(end); time.Sleep(time.Millisecond) {
		if log, err := ioutil.ReadFile(filepath.Join(dirs[1], "aleph.log")); err == nil && strings.Contains(string(log), "round 7 took") {
			cs[1].Process.Kill()
			break
		}
	}
	wait(cs[1], 60*time.Second)
	if ended, _ := wait(cs[0], 60*time.Second); !ended {
		t.Fatal("does not end")
	}
	log := content(t, dirs[0], "aleph.log")
	if n := strings.Count(content(t, dirs[1], "aleph.log"), "Signing; round"); n >= 8 {
		t.Skip("the other process signed everything before it was ended")
	}
	if !strings.Contains(log, "error") {
		t.Fatal(log)
	}
}
''')
