package scen

import (
	"math/rand/v2"

	"aaa.verif/sim/core"
	"aaa.verif/sim/ref"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

// Unreadable messages (C22). One party follows the protocol, except that one of its
// messages, to one recipient or to all, does not decode: it ends early, a coordinate's length
// exceeds what follows, or a point of it does not lie on the curve. A recipient must not use
// it: where every party is needed its operation fails naming the sender, and for the public
// key of a threshold secret the sender counts as absent.

// readable tells which rounds of an operation carry messages that may be unreadable,
// and whether a point off the curve is noticed in the round itself.
func readable(op core.Op) (rounds []int, point map[int]bool) {
	point = map[int]bool{}
	add := func(pt bool, js ...int) {
		for _, j := range js {
			rounds = append(rounds, j)
			point[j] = pt
		}
	}
	switch op.Kind {
	case "gen", "exp":
		add(true, 0)
	case "keygen":
		add(false, 0)
		add(true, 1)
	case "init":
		add(false, 0, 2)
		add(true, 1, 3)
	case "reshare":
		add(false, 0, 1, 4)
		add(true, 2, 3, 5)
	case "mult":
		add(true, 2, 3)
	case "checkdh":
		add(false, 0)
		add(true, 1, 2)
	case "presign":
		add(true, 0, 1, 2, 3)
		for k := 4; k < 28; k += 6 {
			add(false, k, k+1, k+4)
			add(true, k+2, k+3, k+5)
		}
	case "sign":
		add(true, 0)
	}
	return
}

var unreadableModes = []string{"cut", "cut", "last", "empty", "off", "off", "long"}

// unread makes a message unreadable; nil if it cannot.
func unread(mode string, seed uint64, salt int, b []byte) []byte {
	if len(b) == 0 {
		return nil
	}
	r := core.NewRand(seed, 91, uint64(salt), uint64(len(b)))
	c := append([]byte(nil), b...)
	var at []int // where points begin
	for i := 0; i+8 < len(c); i++ {
		if p, _, err := ref.Parse(c[i:]); err == nil && !ref.Eq(p, ref.O) {
			at = append(at, i)
		}
	}
	switch mode {
	case "empty":
		return []byte{}
	case "last":
		return c[:len(c)-1]
	case "off", "long":
		if len(at) == 0 {
			return nil
		}
		i := at[r.IntN(len(at))]
		if mode == "long" {
			i = at[len(at)-1] // nothing after it can be taken for a part of it
		}
		p, rest, _ := ref.Parse(c[i:])
		enc := ref.Enc(p)
		if len(c)-i-len(rest) != len(enc) {
			return nil
		}
		if mode == "off" {
			if r.IntN(2) == 0 {
				c[i+len(enc)-1] ^= 1 << r.IntN(3)
			} else {
				c[i+8+r.IntN(8)] ^= 1 << r.IntN(8)
			}
			if p, _, err := ref.Parse(c[i:]); err == nil && ref.OnCurve(p) {
				return nil
			}
			return c
		}
		if len(rest) > 0 {
			return nil
		}
		k := 1 + r.IntN(40)
		c[i+3+4*r.IntN(2)] += byte(k)
		return c
	}
	cut := r.IntN(len(c))
	if len(at) > 0 && r.IntN(2) == 0 {
		cut = min(len(c)-1, at[r.IntN(len(at))]+[]int{0, 1, 3, 4, 7, 8, 9, 39, 40, 41, 71}[r.IntN(11)])
	}
	return c[:cut]
}

func unreadablePlan(p *core.Plan, kind int) {
	t := int64(p.T)
	p.Ops = nil
	add := func(ops ...core.Op) { p.Ops = append(p.Ops, ops...) }
	switch kind {
	case 0:
		add(core.Op{Kind: "keygen", A: 0})
	case 1:
		add(core.Op{Kind: "mkkey", A: 0}, core.Op{Kind: "checkdh", A: 0, B: 0})
	case 2, 3:
		add(core.Op{Kind: "gen", A: 0}, core.Op{Kind: "reshare", A: 0, B: 1, C: t}, core.Op{Kind: "exp", A: 1})
	case 4:
		add(core.Op{Kind: "gen", A: 0}, core.Op{Kind: "gen", A: 1}, core.Op{Kind: "mult", A: 2, B: 0, C: 1})
	case 5:
		add(core.Op{Kind: "init"})
	case 6:
		add(core.Op{Kind: "init"}, core.Op{Kind: "presign", A: t}, core.Op{Kind: "sign", A: 0})
	}
}

func genUnreadable(r *rand.Rand, p *core.Plan) {
	p.N = 2 + r.IntN(3)
	p.T = 1 + r.IntN(p.N)
	p.I = map[string]int64{"bits": 640}
	GenNetLight(r, p)
	kind := r.IntN(6)
	if r.IntN(12) == 0 {
		kind = 6
	}
	unreadablePlan(p, kind)
	b := r.IntN(p.N)
	var k int
	var rounds []int
	for len(rounds) == 0 {
		k = r.IntN(len(p.Ops))
		rounds, _ = readable(p.Ops[k])
	}
	to := -1
	if r.IntN(2) == 0 {
		to = (b + 1 + r.IntN(p.N-1)) % p.N
	}
	p.Faults = append(p.Faults, core.Fault{Kind: "byz", From: b, To: to, Call: k, Off: rounds[r.IntN(len(rounds))], N: r.IntN(1 << 20), Mode: unreadableModes[r.IntN(len(unreadableModes))]})
	if p.N > 2 && r.IntN(10) == 0 {
		genCrash(r, p, (b+1)%p.N, 1, len(p.Ops), 8*p.N)
	}
	genDelays(r, p)
}

// directedUnreadable: every message of every operation, cut and off the curve.
func directedUnreadable() []*core.Plan {
	var l []*core.Plan
	for kind := 0; kind < 7; kind++ {
		if kind == 3 {
			continue
		}
		q := &core.Plan{T: 2}
		unreadablePlan(q, kind)
		for k, op := range q.Ops {
			rounds, point := readable(op)
			if kind == 6 && op.Kind == "init" {
				continue
			}
			for _, j := range rounds {
				if kind == 6 && op.Kind == "presign" && j > 9 && j%5 != 0 {
					continue // as in the first of the four resharings
				}
				for _, m := range []string{"last", "cut", "off"} {
					if m == "off" && !point[j] {
						continue
					}
					p := &core.Plan{N: 3, T: 2, I: map[string]int64{"bits": 640}, Net: core.Net{BufCap: 4096}}
					unreadablePlan(p, kind)
					p.Faults = []core.Fault{{Kind: "byz", From: (j + k) % 3, To: []int{-1, (j + k + 1) % 3}[(j+len(l))%2], Call: k, Off: j, N: len(l), Mode: m}}
					l = append(l, p)
				}
			}
		}
	}
	return l
}

func runUnreadable(e *Env) {
	p := e.Plan
	g := e.NewProgram(p)
	w := g.W
	for _, op := range p.Ops {
		if op.Kind == "mult" {
			g.Pail = paillierKeys(w.N, int(p.I["bits"]))
		}
	}
	g.DH = func(a, b int64, app *App) (curve.Point, curve.Point) { return g.trueTriple(a, b, app) }
	devs := g.byzantine(func(app *App, f *core.Fault, rec *Rec, honest []byte) []byte {
		if f.Call >= len(p.Ops) {
			return nil
		}
		rounds, point := readable(p.Ops[f.Call])
		if !contains(rounds, f.Off) || ((f.Mode == "off" || f.Mode == "long") && !point[f.Off]) {
			return nil
		}
		return unread(f.Mode, p.Seed, f.N, honest)
	})
	g.Run(func() {
		g.BadResults("C22")
		g.roundErrors("C22", "gen", "reshare", "keygen", "checkdh", "init", "mult", "presign")
		var judged []deviation
		for _, d := range *devs {
			kind := p.Ops[d.f.Call].Kind
			if kind != "exp" && kind != "sign" {
				judged = append(judged, d)
				continue
			}
			for i, app := range g.Apps {
				rec := g.Rec(i, d.f.Call, d.f.Off)
				res := app.Res[d.f.Call]
				if i == d.f.From || g.isByz(i) || rec == nil || rec.Checks[d.f.From] == 0 || string(rec.Got[d.f.From]) != string(d.data) || res == nil || res.Call == nil || !res.Call.Done {
					continue
				}
				e.Nontriv = true
				w.Count("probe.counted_as_absent")
				if res.Call.Err != nil && rec.Good()+1 < p.T {
					if miss, ok := Missing(res.Call.Err); !ok || !contains(miss, d.f.From) {
						w.Violate("C22/deviator-not-named", "party %d operation %d (%s) failed for want of shares, the message of party %d could not be read (%s), the error names %v: %v", i, d.f.Call, kind, d.f.From, d.f.Mode, miss, res.Call.Err)
					}
				}
			}
		}
		g.judge("C22", judged)
		// a reader that accepts what cannot be read may count it, but not for a share
		g.CheckReveals("C22", g.Model(), "exp")
		for k, op := range p.Ops {
			first := -1
			for i, app := range g.Apps {
				res := app.Res[k]
				if op.Kind != "sign" || res == nil || !res.HasSig || !g.OK(i, k) {
					continue
				}
				if first < 0 {
					first = i
				}
				if o := g.Apps[first].Res[k]; o.R.Cmp(res.R) != 0 || o.S.Cmp(res.S) != 0 {
					w.Violate("C22/different-signatures", "operation %d: parties %d and %d sign differently after an unreadable message", k, first, i)
				}
			}
		}
		if !harmful(p) {
			g.MustSucceed("C22")
		}
	})
}

func init() {
	register("C22", &Scenario{Name: "unreadable", Weight: 1, Gen: genUnreadable, Run: runUnreadable, Directed: directedUnreadable})
}
