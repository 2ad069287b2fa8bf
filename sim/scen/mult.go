package scen

import (
	"fmt"
	"math/big"
	"math/rand/v2"

	"aaa.verif/sim/core"
	"aaa.verif/sim/ref"
	"github.com/binance-chain/tss-lib/crypto/paillier"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
)

// Multiplication of secrets (C14).

// pailKeys are made once per process from fixed seeds: they do not depend on the run.
var pailKeys = map[int]*Paillier{}

func paillierKeys(n, bits int) *Paillier {
	k, ok := pailKeys[bits]
	if !ok {
		k = &Paillier{}
		pailKeys[bits] = k
	}
	for i := len(k.Priv); i < n; i++ {
		priv, pub, err := paillier.GenerateFrom(chachaReader(uint64(bits), uint64(i)), bits)
		if err != nil {
			panic("harness: " + err.Error())
		}
		k.Priv, k.Pub = append(k.Priv, priv), append(k.Pub, pub)
	}
	return &Paillier{Priv: k.Priv[:n], Pub: append([]*paillier.PublicKey(nil), k.Pub[:n]...)}
}

type detReader struct{ r *rand.Rand }

func chachaReader(seed ...uint64) *detReader { return &detReader{core.NewRand(seed...)} }

func (d *detReader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(d.r.Uint32())
	}
	return len(b), nil
}

func genMult(r *rand.Rand, p *core.Plan) {
	p.N = 2 + r.IntN(3)
	p.T = 1 + r.IntN(p.N)
	p.I = map[string]int64{"bias": int64(pick(r, 0, 2, 4)), "bits": int64(pick(r, 640, 704, 1024))}
	GenNetLight(r, p)
	p.Ops = []core.Op{{Kind: "gen", A: 0}, {Kind: "gen", A: 1}, {Kind: "mult", A: 2, B: 0, C: 1}}
	if r.IntN(4) == 0 {
		p.Ops[2].C = 0 // a square
		p.Ops = append(p.Ops[:1], p.Ops[2])
	}
	mult := len(p.Ops)
	t := int64(p.T)
	for _, o := range p.Ops {
		s := o.A
		p.Ops = append(p.Ops, core.Op{Kind: "reshare", A: s, B: 10 + s, C: t}, core.Op{Kind: "reveal", A: 10 + s})
	}
	genDelays(r, p)
	if r.IntN(2) == 0 {
		if r.IntN(3) == 0 {
			a := r.IntN(p.N)
			p.Faults = append(p.Faults, core.Fault{Kind: "reset", From: a, To: (a + 1 + r.IntN(p.N-1)) % p.N, Off: r.IntN(2500), Mode: pickS(r, "fin", "rst", "lost")})
		} else {
			genCrash(r, p, r.IntN(p.N), mult, mult+r.IntN(2), 10*p.N)
		}
	}
}

func runMult(e *Env) {
	p := e.Plan
	g := e.NewProgram(p)
	g.Pail = paillierKeys(p.N, int(p.I["bits"]))
	for i := range g.Apps {
		BiasRand(g.W, i, int(p.I["bias"]))
	}
	g.Run(func() {
		g.BadResults("C14")
		g.roundErrors("C14", "mult")
		if !harmful(p) {
			g.MustSucceed("C14")
		}
		m := g.Model()
		mk := -1
		for k, op := range p.Ops {
			if op.Kind == "mult" {
				mk = k
			}
		}
		var prod ref.Point
		have := false
		var ab ref.Point
		haveAB := false
		if mk >= 0 {
			prod, have = g.publishedSum(mk, 2)
			ab, haveAB = g.publishedSum(mk, 3)
		}
		mul := p.Ops[mk]
		for i, app := range g.Apps {
			val := map[int64]*big.Int{}
			for k, op := range p.Ops {
				r := app.Res[k]
				if op.Kind == "reveal" && r != nil && r.HasVal && r.Call.Err == nil {
					val[op.A-10] = r.Val
				}
			}
			c := val[mul.A]
			if c == nil {
				continue
			}
			if have && !ref.Eq(ref.Base(c), prod) {
				g.W.Violate("C14/commitments-wrong", "party %d: the product reveals %x, which is not what the published commitments of the product commit to", i, c)
			}
			a, b := val[mul.B], val[mul.C]
			if a == nil || b == nil {
				continue
			}
			for s, v := range map[int64]*big.Int{mul.B: a, mul.C: b} {
				if want, ok := m.AD[s]; ok && !ref.Eq(ref.Base(v), want) {
					g.W.Violate("C14/operand-changed", "party %d: operand %d reveals %x, not the value it had before the multiplication", i, s, v)
				}
			}
			want := new(big.Int).Mul(a, b)
			want.Mod(want, ref.N)
			if c.Cmp(want) != 0 {
				g.W.Violate("C14/wrong-product", "party %d: %x * %x gave %x", i, a, b, c)
			}
			if haveAB && !ref.Eq(ref.Base(want), ab) {
				g.W.Violate("C14/commitments-wrong", "party %d: the commitments published last do not commit to the product of %x and %x", i, a, b)
			}
			e.Nontriv = true
			g.W.Count("probe.product_checked")
		}
	})
}

// publishedSum opens the sum of the commitments all parties published in round j of op k.
func (g *Program) publishedSum(k, j int) (ref.Point, bool) {
	sum := ref.O
	for i := range g.Apps {
		rec := g.Rec(i, k, j)
		if rec == nil || len(rec.Sent) == 0 {
			return sum, false
		}
		eg, _, err := ref.ParseEG(rec.Sent[0])
		if err != nil {
			return sum, false
		}
		sum = ref.Add(sum, ref.Open(eg, g.W.Eta))
	}
	return sum, true
}

// roundErrors: an operation in which a round failed must not succeed.
func (g *Program) roundErrors(prop string, kinds ...string) {
	for k, op := range g.W.P.Ops {
		ok := false
		for _, kd := range kinds {
			ok = ok || kd == op.Kind
		}
		if !ok {
			continue
		}
		for i, app := range g.Apps {
			r := app.Res[k]
			if r == nil || r.Call == nil || !r.Call.Done {
				continue
			}
			for j, rec := range r.Call.Recs {
				if rec.Err != nil {
					if r.Call.Err == nil {
						g.W.Violate(prop+"/failure-ignored", "party %d operation %d (%s) succeeded although its round %d failed: %v", i, k, op.Kind, j, rec.Err)
					}
					g.W.E.Nontriv = true
					g.W.Count("probe.failed_round_in_operation")
				}
			}
			if r.Call.Err == nil && len(r.Call.Recs) > 0 {
				for j, rec := range r.Call.Recs {
					if rec.Good() != g.W.N-1 {
						g.W.Violate(prop+"/incomplete-round", "party %d operation %d (%s) succeeded with %d of %d payloads in its round %d", i, k, op.Kind, rec.Good(), g.W.N-1, j)
					}
				}
			}
		}
	}
}

// PrivMult with chosen operands: every party calls it with the plan's values.

func genPrivMult(r *rand.Rand, p *core.Plan) {
	p.N = 2 + r.IntN(4)
	p.I = map[string]int64{"bias": int64(pick(r, 0, 0, 2)), "bits": int64(pick(r, 640, 704, 768, 1024)), "ext": int64(r.IntN(3)), "calls": int64(1 + r.IntN(2))}
	GenNetLight(r, p)
	genDelays(r, p)
	if r.IntN(3) == 0 {
		genCrash(r, p, r.IntN(p.N), 1, int(p.I["calls"]), 8*p.N)
	}
}

func extremeScalar(r *rand.Rand, ext int64) *big.Int {
	if ext == 2 || (ext == 1 && r.IntN(2) == 0) {
		return new(big.Int).Set([]*big.Int{new(big.Int), big.NewInt(1), new(big.Int).Sub(ref.N, big.NewInt(1)), new(big.Int).Rsh(ref.N, 1)}[r.IntN(4)])
	}
	return Scalar(r)
}

func runPrivMult(e *Env) {
	p := e.Plan
	w := e.NewWorld(p)
	keys := paillierKeys(p.N, int(p.I["bits"]))
	calls := int(p.I["calls"])
	as, bs, out := make([][]*big.Int, calls), make([][]*big.Int, calls), make([][]*big.Int, calls)
	for c := range as {
		as[c], bs[c], out[c] = make([]*big.Int, p.N), make([]*big.Int, p.N), make([]*big.Int, p.N)
		for i := 0; i < p.N; i++ {
			r := core.NewRand(p.Seed, 41, uint64(c), uint64(i))
			as[c][i], bs[c][i] = extremeScalar(r, p.I["ext"]), extremeScalar(r, p.I["ext"])
		}
	}
	for i := 0; i < p.N; i++ {
		BiasRand(w, i, int(p.I["bias"]))
		w.Spawn(i, func(n *Node) {
			for c := 0; c < calls; c++ {
				cr := n.Call("privmult", func() error {
					a, b := new(big.Int).Set(as[c][n.ID]), new(big.Int).Set(bs[c][n.ID])
					v, err := arith.PrivMult(a, b, n.ID, w.N, n, keys.Priv[n.ID], keys.Pub[n.ID], keys.Pub)
					if a.Cmp(as[c][n.ID]) != 0 || b.Cmp(bs[c][n.ID]) != 0 {
						w.Violate("C14/operand-changed", "party %d: PrivMult modified its arguments", n.ID)
					}
					if err != nil && v != nil {
						w.Violate("C14/bad-result", "party %d: PrivMult returned a share together with an error", n.ID)
					}
					if err == nil {
						if v == nil || v.Sign() < 0 || v.Cmp(ref.N) >= 0 {
							w.Violate("C14/unreduced-share", "party %d: PrivMult returned %v, not an integer below the group order", n.ID, v)
							return fmt.Errorf("harness: no share")
						}
						out[c][n.ID] = new(big.Int).Set(v)
					}
					return err
				})
				if cr.Err != nil {
					if !harmful(p) {
						w.Violate("C14/fails-without-cause", "party %d: PrivMult failed although nothing failed: %v", n.ID, cr.Err)
					}
					break
				}
			}
			n.Call("stop", func() error { n.Stop(); return nil })
		})
	}
	w.Finish(func() {
		for _, n := range w.Nodes {
			for _, c := range n.Calls {
				for j, rec := range c.Recs {
					if rec.Err != nil && c.Done && c.Err == nil {
						w.Violate("C14/failure-ignored", "party %d: PrivMult succeeded although its round %d failed: %v", n.ID, j, rec.Err)
					}
				}
			}
		}
		for c := 0; c < calls; c++ {
			sa, sb, so := new(big.Int), new(big.Int), new(big.Int)
			full := true
			for i := 0; i < p.N; i++ {
				sa.Add(sa, as[c][i])
				sb.Add(sb, bs[c][i])
				if out[c][i] == nil {
					full = false
					break
				}
				so.Add(so, out[c][i])
			}
			if !full {
				continue
			}
			e.Nontriv = true
			w.Count("probe.product_checked")
			sa.Mul(sa, sb).Mod(sa, ref.N)
			if so.Mod(so, ref.N).Cmp(sa) != 0 {
				w.Violate("C14/wrong-product", "the parties' shares of the product (call %d) add up to %x instead of %x; operands %x and %x", c, so, sa, as[c], bs[c])
			}
		}
	})
}

func init() {
	register("C14", &Scenario{Name: "mult", Weight: 1, Gen: genMult, Run: runMult})
	register("C14", &Scenario{Name: "privmult", Weight: 2, Gen: genPrivMult, Run: runPrivMult})
}
