package scen

import (
	"bytes"
	"io"
	"math/big"
	"math/rand/v2"

	"aaa.verif/sim/core"
	"aaa.verif/sim/ref"
	pkg "gitlab.com/alephledger/threshold-ecdsa/pkg/crypto"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
)

// Zero-knowledge proofs travelling over simulated streams from a prover, honest or not, to
// verifiers (C12). Party 0 proves, the others verify.
//
// Ops: Kind "know" or "refresh", A the behaviour (index into proofModes), B the values,
// C a parameter of the behaviour.

var proofModes = []string{
	"honest", "honest", "object", "other", "other", "alter", "alter", "respond", "respond", "wrong", "wrong", "forge", "forge", "forge", "grind", "scaled", "base",
}

// raw is a proof in its wire form.
type rawProof struct {
	z1, z2 *big.Int
	xy     ref.EG
}

func (p rawProof) bytes() []byte {
	a, b := p.z1.Bytes(), p.z2.Bytes()
	out := []byte{0, 0, 0, byte(len(a)), 0, 0, 0, byte(len(b))}
	return append(append(append(out, a...), b...), ref.EncEG(p.xy)...)
}

func parseProof(b []byte) (p rawProof, ok bool) {
	if len(b) < 8 || b[0]|b[1]|b[2]|b[4]|b[5]|b[6] != 0 {
		return p, false
	}
	n, m := int(b[3]), int(b[7])
	if len(b) < 8+n+m {
		return p, false
	}
	p.z1, p.z2 = new(big.Int).SetBytes(b[8:8+n]), new(big.Int).SetBytes(b[8+n:8+n+m])
	var err error
	p.xy, _, err = ref.ParseEG(b[8+n+m:])
	return p, err == nil
}

type proofItem struct {
	kind   string // know or refresh
	what   string
	wire   []byte // what the verifiers receive
	honest []byte // the honest encoding it was derived from, if any
	c1, c2 *commitment.ElGamal
	obj    interface{} // handed over in memory instead of on the wire
	accept bool
	egf    *commitment.ElGamalFactory
	none   bool // nothing to verify
}

func genProofs(r *rand.Rand, p *core.Plan) {
	p.N = 2 + r.IntN(3)
	GenNetLight(r, p)
	p.I = map[string]int64{"bias": int64(pick(r, 0, 0, 2))}
	if p.Net.Fine > 0 {
		p.I["deep"] = 1
	}
	for i, m := 0, 1+r.IntN(3); i < m; i++ {
		p.Ops = append(p.Ops, core.Op{Kind: pickS(r, "know", "refresh"), A: int64(r.IntN(len(proofModes))), B: int64(r.IntN(1 << 40)), C: int64(r.IntN(1 << 20))})
	}
}

func modN(v *big.Int) *big.Int { return new(big.Int).Mod(v, ref.N) }

// prover draws the values of one statement.
type prover struct {
	w   *World
	r   *rand.Rand
	egf *commitment.ElGamalFactory
}

// witness draws a value or randomness, extremes and unreduced numbers included.
func (v *prover) witness() *big.Int {
	if v.r.IntN(10) == 0 {
		return someScalar(v.r)
	}
	return Scalar(v.r)
}

func (v *prover) scalar() *big.Int {
	for {
		if k := modN(Wide(v.r, 40)); k.Sign() != 0 {
			return k
		}
	}
}

func (v *prover) random() ref.Point { return ref.Base(v.scalar()) }

func (v *prover) item(op core.Op) *proofItem {
	w, r := v.w, v.r
	it := &proofItem{kind: op.Kind, what: proofModes[op.A], egf: v.egf}
	fail := func(err error) *proofItem {
		w.Violate("C12/proof-not-made", "%s: making a proof from a valid witness failed: %v", op.Kind, err)
		it.none = true
		return it
	}
	val, rnd, ref1 := v.witness(), v.witness(), v.witness()
	congruent := it.what == "respond" && r.IntN(4) == 0
	if congruent { // the response is the prover's blinding, which may be small
		if ref1 = new(big.Int); r.IntN(2) == 0 {
			rnd = new(big.Int)
		} else {
			val = new(big.Int)
		}
	}
	c := v.egf.Create(val, rnd)
	it.c1 = c
	base := ref.Commit(w.H, modN(val), modN(rnd))
	if op.Kind == "refresh" {
		it.c2 = v.egf.Neutral()
		it.c2.Compose(c, v.egf.Create(new(big.Int), ref1))
	}
	baseN := ref.AddEG(base, ref.Commit(w.H, new(big.Int), modN(ref1)))
	encode := func(z interface{ Encode(io.Writer) error }, err error) ([]byte, error) {
		if err != nil {
			return nil, err
		}
		var b sliceWriter
		err = z.Encode(&b)
		return b, err
	}
	make := func() ([]byte, error) {
		if op.Kind == "know" {
			z, err := zkpok.NewZKEGKnow(v.egf, c, val, rnd)
			it.obj = z
			return encode(z, err)
		}
		z, err := zkpok.NewZKEGRefresh(v.egf, c, it.c2, ref1)
		it.obj = z
		return encode(z, err)
	}
	switch it.what {
	case "honest", "object":
		b, err := make()
		if err != nil {
			return fail(err)
		}
		it.wire, it.accept = b, true
		if it.what == "honest" {
			it.obj = nil
		}
	case "other": // a valid proof, another statement
		b, err := make()
		if err != nil {
			return fail(err)
		}
		it.wire, it.obj = b, nil
		// mangle changes a commitment into a different one
		mangle := func(e ref.EG) ref.EG {
			switch r.IntN(8) {
			case 0:
				return ref.EG{First: e.First, Second: ref.Add(e.Second, ref.G)}
			case 1:
				return ref.EG{First: ref.Add(e.First, ref.G), Second: e.Second}
			case 2:
				return ref.EG{First: e.Second, Second: e.First}
			case 3:
				return ref.NegEG(e)
			case 4:
				return ref.EG{First: ref.O, Second: ref.O}
			case 5: // same value, other randomness
				return ref.AddEG(e, ref.Commit(w.H, new(big.Int), v.scalar()))
			case 6: // another value, same randomness
				return ref.AddEG(e, ref.Commit(w.H, v.scalar(), new(big.Int)))
			}
			return ref.EG{First: v.random(), Second: v.random()}
		}
		o1, o2 := base, baseN
		if op.Kind == "know" {
			o1 = mangle(base)
		} else {
			switch r.IntN(4) {
			case 0:
				o1 = mangle(o1)
			case 1:
				o2 = mangle(o2)
			case 2:
				o1, o2 = o2, o1
			case 3: // both changed by the same: the difference stays
				d := ref.EG{First: v.random(), Second: v.random()}
				o1, o2 = ref.AddEG(o1, d), ref.AddEG(o2, d)
			}
		}
		if ref.EqEG(o1, base) && (op.Kind == "know" || ref.EqEG(o2, baseN)) {
			it.none = true
			return it
		}
		it.c1 = ToEG(o1)
		if op.Kind == "refresh" {
			it.c2 = ToEG(o2)
		}
	case "base": // the right statement, another base of the commitments
		b, err := make()
		if err != nil {
			return fail(err)
		}
		it.wire, it.obj = b, nil
		it.egf = commitment.NewElGamalFactory(ToCurve(ref.Add(w.H, v.random())))
		if p, ok := parseProof(b); ok && p.z1.Sign() == 0 {
			it.none = true
		}
	case "alter": // damaged on the way
		b, err := make()
		if err != nil {
			return fail(err)
		}
		it.honest, it.obj = b, nil
		c := append([]byte(nil), b...)
		for i, k := 0, 1+r.IntN(2); i < k; i++ {
			switch r.IntN(5) {
			case 0:
				c[r.IntN(8)] ^= 1 << r.IntN(8)
			case 1:
				c = c[:r.IntN(len(c))+1]
			case 2:
				i := r.IntN(len(c))
				c = append(append(append([]byte(nil), c[:i]...), byte(r.Uint32())), c[i:]...)
			default:
				c[r.IntN(len(c))] ^= 1 << r.IntN(8)
			}
			if len(c) < 8 {
				break
			}
		}
		it.wire = c
	case "respond": // another response or another first message
		b, err := make()
		if err != nil {
			return fail(err)
		}
		it.honest, it.obj = b, nil
		p, ok := parseProof(b)
		if !ok {
			w.Violate("C12/proof-encoding", "%s: a proof is encoded as %x", op.Kind, b)
			it.none = true
			return it
		}
		d := v.scalar()
		if r.IntN(2) == 0 {
			d = big.NewInt(1)
		}
		what := r.IntN(12)
		if congruent {
			what = 3 + r.IntN(2)
		}
		switch what {
		case 0:
			p.z1, p.z2 = p.z2, p.z1
		case 1:
			p.z1 = modN(new(big.Int).Add(p.z1, d))
		case 2:
			p.z2 = modN(new(big.Int).Add(p.z2, d))
		case 3: // congruent, not the same
			p.z1 = new(big.Int).Add(p.z1, ref.N)
		case 4:
			p.z2 = new(big.Int).Add(p.z2, ref.N)
		case 5:
			p.xy = ref.NegEG(p.xy)
		case 6:
			p.xy = ref.AddEG(p.xy, ref.Commit(w.H, new(big.Int), d))
			p.z1 = modN(new(big.Int).Add(p.z1, d))
		case 7:
			p.xy = ref.AddEG(p.xy, ref.Commit(w.H, d, new(big.Int)))
			p.z2 = modN(new(big.Int).Add(p.z2, d))
		case 8:
			p.xy.First = ref.Add(p.xy.First, ref.G)
		case 9:
			p.xy.Second = ref.Add(p.xy.Second, ref.G)
		case 10:
			p.z1 = modN(new(big.Int).Neg(p.z1))
			p.z2 = modN(new(big.Int).Neg(p.z2))
			p.xy = ref.NegEG(p.xy)
		case 11:
			p.z1, p.z2, p.xy = new(big.Int), new(big.Int), ref.EG{First: ref.O, Second: ref.O}
		}
		if len(p.z1.Bytes()) > 255 || len(p.z2.Bytes()) > 255 {
			it.none = true
			return it
		}
		it.wire = p.bytes()
		if !congruent && (op.Kind == "know" && ref.EqEG(base, ref.EG{First: ref.O, Second: ref.O}) || op.Kind == "refresh" && ref.EqEG(base, baseN)) {
			it.none = true // everybody knows a witness, so other proofs are no forgeries
		}
	case "wrong": // made from something that is no witness
		it.obj = nil
		d := v.scalar()
		var b []byte
		var err error
		if op.Kind == "know" {
			v2, r2 := new(big.Int).Set(val), new(big.Int).Set(rnd)
			switch r.IntN(4) {
			case 0:
				v2.Add(v2, d)
			case 1:
				r2.Add(r2, d)
			case 2: // the second component still opens
				r2.Add(r2, d)
				v2.Add(v2, new(big.Int).Mul(ref.N, ref.N)).Sub(v2, new(big.Int).Mul(d, w.Eta))
				v2 = modN(v2)
			case 3:
				v2, r2 = r2, v2
				if modN(v2).Cmp(modN(r2)) == 0 {
					it.none = true
					return it
				}
			}
			b, err = encode(zkpok.NewZKEGKnow(v.egf, c, v2, r2))
		} else {
			s2 := new(big.Int).Set(ref1)
			switch r.IntN(3) {
			case 0:
				s2.Add(s2, d)
			case 1: // commits to another value
				it.c2.Compose(it.c2, v.egf.Create(d, new(big.Int)))
			case 2: // second component refreshed alone, first component alone
				e := baseN
				if r.IntN(2) == 0 {
					e.First = base.First
				} else {
					e.Second = base.Second
				}
				if ref.EqEG(e, baseN) {
					it.none = true
					return it
				}
				it.c2 = ToEG(e)
			}
			b, err = encode(zkpok.NewZKEGRefresh(v.egf, c, it.c2, s2))
		}
		if err != nil {
			it.none = true
			return it
		}
		it.wire = b
	case "forge":
		v.forge(it, op)
	case "grind":
		// guess the challenge, hoping that there are few
		it.obj = nil
		for k := 0; k < 12; k++ {
			e := modN(pkg.HashToBigInt([]byte{byte(k), byte(op.B)}))
			f := ref.EG{First: v.random(), Second: v.random()}
			z1, z2 := v.scalar(), v.scalar()
			if op.Kind == "know" {
				p := rawProof{z1, z2, ref.AddEG(ref.Commit(w.H, z2, z1), ref.NegEG(ref.MulEG(f, e)))}
				it.c1, it.wire = ToEG(f), p.bytes()
				if modN(v.hash(true, []ref.Point{f.First, f.Second}, p.xy, 0)).Cmp(e) == 0 {
					break
				}
				continue
			}
			diff := ref.AddEG(base, ref.NegEG(f))
			p := rawProof{z1, e, ref.AddEG(ref.Commit(w.H, new(big.Int), z1), ref.MulEG(diff, e))}
			it.c1, it.c2, it.wire = ToEG(base), ToEG(f), p.bytes()
			if modN(v.hash(true, []ref.Point{base.First, base.Second, f.First, f.Second}, p.xy, 0)).Cmp(e) == 0 {
				break
			}
		}
	case "scaled":
		// c2 commits to a multiple of what c1 commits to
		it.obj = nil
		if op.Kind == "know" || modN(val).Sign() == 0 {
			it.none = true
			return it
		}
		a := new(big.Int).Add(v.scalar(), big.NewInt(1))
		if r.IntN(2) == 0 {
			a = big.NewInt(int64(2 + r.IntN(5)))
		}
		if modN(a).Sign() == 0 || modN(a).Cmp(big.NewInt(1)) == 0 {
			it.none = true
			return it
		}
		s := v.scalar()
		o2 := ref.AddEG(ref.MulEG(base, modN(a)), ref.Commit(w.H, new(big.Int), s))
		sigma := v.scalar()
		xy := ref.Commit(w.H, new(big.Int), sigma)
		e := modN(v.hash(true, []ref.Point{base.First, base.Second, o2.First, o2.Second}, xy, 0))
		z1 := modN(new(big.Int).Add(sigma, new(big.Int).Mul(e, s)))
		it.c2 = ToEG(o2)
		it.wire = rawProof{z1, modN(new(big.Int).Mul(e, a)), xy}.bytes()
	}
	return it
}

// hash computes the challenge over the statement and the first message, without the inputs
// whose bit is set in omit.
func (v *prover) hash(stmtFirst bool, stmt []ref.Point, xy ref.EG, omit int) *big.Int {
	in := append([]ref.Point(nil), stmt...)
	in = append(in, xy.First, xy.Second)
	var parts [][]byte
	for i, p := range in {
		if omit&(1<<i) == 0 {
			parts = append(parts, ref.Enc(p))
		} else {
			parts = append(parts, nil)
		}
	}
	if !stmtFirst {
		k := len(stmt)
		parts = append(append([][]byte(nil), parts[k:]...), parts[:k]...)
	}
	return pkg.HashToBigInt(bytes.Join(parts, nil))
}

// forge builds a proof of a statement whose witness nobody knows, for the case that some
// of what must be hashed is not: the omitted elements are chosen after the challenge.
func (v *prover) forge(it *proofItem, op core.Op) {
	w := v.w
	it.obj = nil
	k := 2 // points of the statement
	if op.Kind == "refresh" {
		k = 4
	}
	omit := 1 + int(op.C)%(1<<(k+2)-1)
	order := op.C>>10&7 != 0
	// representations: every point is aG + bH with known a, b, unless it is solved for
	stmt := make([]ref.Point, k)
	for i := range stmt {
		stmt[i] = v.random()
	}
	xy := ref.EG{First: v.random(), Second: v.random()}
	alpha, a := v.scalar(), v.scalar()
	beta, b := v.scalar(), v.scalar()
	// which input is solved for in each of the two equations (-1: it is answered honestly)
	solve := [2]int{-1, -1}
	for eq := 0; eq < 2; eq++ {
		var cand []int
		for i := eq; i < k+2; i += 2 {
			if omit&(1<<i) != 0 {
				cand = append(cand, i)
			}
		}
		if len(cand) > 0 {
			solve[eq] = cand[v.r.IntN(len(cand))]
		}
	}
	g := [2]ref.Point{ref.G, w.H}
	for eq := 0; eq < 2; eq++ {
		if solve[eq] >= 0 {
			continue
		}
		if op.Kind == "know" {
			p, x := ref.Mul(g[eq], a), ref.Mul(g[eq], alpha)
			if eq == 1 {
				p, x = ref.Add(p, ref.Base(b)), ref.Add(x, ref.Base(beta))
			}
			stmt[eq] = p
			setEG(&xy, eq, x)
		} else {
			stmt[2+eq] = ref.Add(stmt[eq], ref.Mul(g[eq], a))
			setEG(&xy, eq, ref.Mul(g[eq], alpha))
		}
	}
	e := modN(v.hash(order, stmt, xy, omit))
	if e.Sign() == 0 {
		it.none = true
		return
	}
	inv := new(big.Int).ModInverse(e, ref.N)
	z1 := modN(new(big.Int).Add(alpha, new(big.Int).Mul(e, a)))
	z2 := modN(new(big.Int).Add(beta, new(big.Int).Mul(e, b)))
	if op.Kind == "refresh" {
		z2 = e
	}
	for eq := 0; eq < 2; eq++ {
		if solve[eq] < 0 {
			continue
		}
		x := xy.First
		if eq == 1 {
			x = xy.Second
		}
		lhs := ref.Mul(g[eq], z1)
		if op.Kind == "know" {
			if eq == 1 {
				lhs = ref.Add(lhs, ref.Base(z2))
			}
			if solve[eq] < k {
				stmt[eq] = ref.Mul(ref.Sub(lhs, x), inv)
			} else {
				setEG(&xy, eq, ref.Sub(lhs, ref.Mul(stmt[eq], e)))
			}
			continue
		}
		// z1 g + e c1 - e c2 = xy
		switch solve[eq] {
		case eq:
			stmt[eq] = ref.Add(stmt[2+eq], ref.Mul(ref.Sub(x, lhs), inv))
		case 2 + eq:
			stmt[2+eq] = ref.Add(stmt[eq], ref.Mul(ref.Sub(lhs, x), inv))
		default:
			setEG(&xy, eq, ref.Add(lhs, ref.Mul(ref.Sub(stmt[eq], stmt[2+eq]), e)))
		}
	}
	it.c1 = ToEG(ref.EG{First: stmt[0], Second: stmt[1]})
	if op.Kind == "refresh" {
		it.c2 = ToEG(ref.EG{First: stmt[2], Second: stmt[3]})
	}
	it.wire = rawProof{z1, z2, xy}.bytes()
}

func setEG(e *ref.EG, i int, p ref.Point) {
	if i == 0 {
		e.First = p
	} else {
		e.Second = p
	}
}

func runProofs(e *Env) {
	p := e.Plan
	w := e.NewWorld(p)
	items := make([]*proofItem, len(p.Ops))
	made := make([]bool, len(p.Ops))
	ends := make([][]*core.End, w.N)
	outs := make([][]*core.End, w.N)
	for j := 1; j < w.N; j++ {
		for range p.Ops {
			a, b := w.Connect(0, j)
			outs[j], ends[j] = append(outs[j], a), append(ends[j], b)
		}
	}
	BiasRand(w, 0, int(p.I["bias"]))
	w.Go(0, func(pt *core.Party) {
		pt.Yield() // from here on, one party runs at a time
		v := &prover{w: w, egf: w.Egf()}
		for k, op := range p.Ops {
			v.r = core.NewRand(p.Seed, 95, uint64(op.B))
			it := v.item(op)
			pt.CheckAlive()
			items[k] = it
			made[k] = true
			for j := 1; j < w.N; j++ {
				if !it.none {
					outs[j][k].Write(it.wire)
					outs[j][k].Flush()
				}
				outs[j][k].Close()
				pt.CheckAlive()
			}
		}
	})
	for j := 1; j < w.N; j++ {
		w.Go(j, func(pt *core.Party) {
			pt.Yield()
			own := w.Egf()
			for k := range p.Ops {
				for !made[k] {
					pt.Yield()
					pt.CheckAlive()
				}
				it := items[k]
				if it.none {
					continue
				}
				egf := own
				if it.what == "base" {
					egf = it.egf
				}
				verify := func() (decoded bool, again []byte, err error) {
					type proof interface {
						Decode(io.Reader) error
						Encode(io.Writer) error
					}
					var z proof
					if it.kind == "know" {
						z = &zkpok.ZKEGKnow{}
					} else {
						z = &zkpok.ZKEGRefresh{}
					}
					if it.obj != nil {
						z = it.obj.(proof)
					} else if err := z.Decode(ends[j][k]); err != nil {
						return false, nil, err
					}
					pt.Yield()
					pt.CheckAlive()
					var b sliceWriter
					if err := z.Encode(&b); err != nil {
						return true, nil, err
					}
					if kn, ok := z.(*zkpok.ZKEGKnow); ok {
						err = kn.Verify(egf, it.c1)
						if (kn.Verify(egf, it.c1) == nil) != (err == nil) {
							w.Violate("C12/unstable-verdict", "party %d: verifying proof %d (%s, %s) twice gave two results", j, k, it.kind, it.what)
						}
					} else {
						err = z.(*zkpok.ZKEGRefresh).Verify(egf, it.c1, it.c2)
					}
					return true, b, err
				}
				decoded, again, err := verify()
				pt.CheckAlive()
				e.Nontriv = true
				w.Count("probe.proof_" + it.what)
				if it.accept {
					if err != nil {
						w.Violate("C12/valid-proof-rejected", "party %d rejects the valid proof %d (%s, encoded as %s): %v", j, k, it.kind, abbrev(it.wire), err)
					}
					continue
				}
				if !decoded || err != nil {
					continue
				}
				if it.honest != nil && bytes.Equal(again, it.honest) {
					w.Count("probe.alteration_without_effect")
					continue
				}
				w.Violate("C12/bad-proof-accepted", "party %d accepts proof %d (%s): %s", j, k, it.kind, it.what)
			}
		})
	}
	w.Finish(nil)
}

func init() {
	register("C12", &Scenario{Name: "proofs", Weight: 1, Gen: genProofs, Run: runProofs})
}
