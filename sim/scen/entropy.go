package scen

import (
	"fmt"
	"math/big"
	"math/rand/v2"

	"aaa.verif/sim/core"
	"aaa.verif/sim/ref"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
)

// Failures of the source of randomness (C19).
//
// Every operation runs on connections of its own, so that later operations start afresh.
// In operation I["op"] the I["nth"]-th draw of party I["victim"] fails (and, with
// I["always"], all later ones of that operation).

func genEntropy(r *rand.Rand, p *core.Plan) {
	p.N = 2 + r.IntN(2)
	if r.IntN(6) == 0 {
		p.N = 4
	}
	p.T = 1 + r.IntN(p.N)
	t := int64(p.T)
	p.I = map[string]int64{"bits": 640, "victim": int64(r.IntN(p.N)), "always": int64(r.IntN(2)), "second": int64(pick(r, -1, -1, r.IntN(p.N)))}
	GenNetLight(r, p)
	var draws int
	switch r.IntN(9) {
	case 0:
		p.Ops = []core.Op{{Kind: "gen", A: 0}}
		draws = 2
	case 1, 2, 3:
		p.Ops = []core.Op{{Kind: "gen", A: 0}, {Kind: "reshare", A: 0, B: 10, C: t}}
		draws = 2 + (p.T - 1) + 4*p.T + 2*p.N + 2
	case 4:
		p.Ops = []core.Op{{Kind: "gen", A: 0}, {Kind: "gen", A: 1}, {Kind: "mult", A: 2, B: 0, C: 1}}
		draws = 3 * p.N
	case 5:
		p.Ops = []core.Op{{Kind: "keygen", A: 0}}
		draws = 1
	case 6:
		p.Ops = []core.Op{{Kind: "keygen", A: 0}, {Kind: "checkdh", A: 0, B: 0}}
		draws = 2
	case 7:
		p.Ops = []core.Op{{Kind: "init"}}
		draws = 2
	case 8:
		p.N, p.T = 2, min(p.T, 2)
		p.I["victim"] %= 2
		p.I["second"] = -1
		p.Ops = []core.Op{{Kind: "init"}, {Kind: "presign", A: int64(p.T)}}
		draws = 8 + 4*(2+(p.T-1)+4*p.T+2*p.N+2)
	}
	p.I["op"] = int64(len(p.Ops) - 1)
	p.I["nth"] = int64(1 + r.IntN(draws))
	if p.I["second"] == p.I["victim"] {
		p.I["second"] = -1
	}
	p.I["nth2"] = int64(1 + r.IntN(draws))
	// afterwards: the same kind of operation must work
	switch last := p.Ops[len(p.Ops)-1].Kind; last {
	case "gen", "reshare":
		p.Ops = append(p.Ops, core.Op{Kind: "gen", A: 5}, core.Op{Kind: "reshare", A: 5, B: 15, C: t}, core.Op{Kind: "reveal", A: 15})
	case "mult":
		p.Ops = append(p.Ops, core.Op{Kind: "mult", A: 5, B: 0, C: 1}, core.Op{Kind: "reshare", A: 5, B: 15, C: t})
	case "keygen", "checkdh":
		p.Ops = append(p.Ops, core.Op{Kind: "keygen", A: 5}, core.Op{Kind: "checkdh", A: 5, B: 5})
	case "init":
		p.Ops = append(p.Ops, core.Op{Kind: "init"})
	case "presign":
		p.Ops = append(p.Ops, core.Op{Kind: "sign", A: 1}, core.Op{Kind: "presign", A: int64(p.T)}, core.Op{Kind: "sign", A: 2})
	}
}

func runEntropy(e *Env) {
	p := e.Plan
	g := e.NewProgram(p)
	w := g.W
	g.Continue = true
	g.Pail = paillierKeys(p.N, int(p.I["bits"]))
	g.DH = g.trueTriple
	op := int(p.I["op"])
	type mark struct{ begin, after int }
	frames := map[[2]int]mark{}
	g.Before = func(app *App, k int) {
		pt := app.Party
		// an earlier failure must not be felt any more
		pt.FailAlways = false
		pt.FailDraw = map[int]bool{}
		m := frames[[2]int{app.ID, k - 1}]
		m.after = pt.Frames
		frames[[2]int{app.ID, k - 1}] = m
		frames[[2]int{app.ID, k}] = mark{begin: pt.Frames}
		if k != op {
			return
		}
		nth := int64(0)
		if int64(app.ID) == p.I["victim"] {
			nth = p.I["nth"]
		} else if int64(app.ID) == p.I["second"] {
			nth = p.I["nth2"]
		}
		if nth > 0 {
			if p.I["always"] == 1 {
				for j := 0; j < 3000; j++ {
					pt.FailDraw[pt.Draws+int(nth)+j] = true
				}
			} else {
				pt.FailDraw[pt.Draws+int(nth)] = true
			}
		}
	}
	g.Run(func() {
		g.BadResults("C19")
		hit := false
		for i, app := range g.Apps {
			pt := w.Party(i)
			if !pt.EntropyHit {
				continue
			}
			hit = true
			e.Nontriv = true
			w.Count("probe.entropy_failure_in_" + p.Ops[op].Kind)
			res := app.Res[op]
			if res == nil || res.Call == nil || !res.Call.Done {
				continue // reported as a hang or panic
			}
			if res.Call.Err == nil {
				w.Violate("C19/failure-ignored", "party %d: operation %d (%s) succeeded although draw %d of it failed", i, op, p.Ops[op].Kind, p.I["nth"])
			}
			end := pt.Frames
			if m, ok := frames[[2]int{i, op}]; ok && op+1 < len(p.Ops) {
				end = m.after
			}
			if end > pt.FailFrames {
				w.Violate("C19/message-after-failure", "party %d sent %d messages in operation %d (%s) after a draw of randomness had failed in it", i, end-pt.FailFrames, op, p.Ops[op].Kind)
			}
			if k := op + 1; p.Ops[op].Kind == "presign" && k < len(p.Ops) && p.Ops[k].Kind == "sign" {
				// there is no presignature to sign with
				r := app.Res[k]
				if r != nil && r.Call != nil && r.Call.Done && r.Call.Err == nil {
					w.Violate("C19/signed-without-presignature", "party %d signed although its only presigning failed for lack of randomness", i)
				}
				if r != nil && r.Call != nil && len(r.Call.Recs) > 0 {
					w.Violate("C19/signed-without-presignature", "party %d took part in signing although its only presigning failed for lack of randomness", i)
				}
			}
		}
		// operations before the failure, and those after it that use nothing made before
		for k := range p.Ops {
			if k == op && hit {
				continue
			}
			if hit && p.Ops[op].Kind == "presign" && k == op+1 {
				continue
			}
			for i, app := range g.Apps {
				r := app.Res[k]
				if r == nil || r.Call == nil || !r.Call.Done {
					if !w.Hung {
						w.Violate("C19/no-recovery", "party %d never completed operation %d (%s)", i, k, p.Ops[k].Kind)
					}
					return
				}
				if r.Call.Err != nil {
					w.Violate("C19/no-recovery", "party %d operation %d (%s) failed although randomness was available to it: %v", i, k, p.Ops[k].Kind, r.Call.Err)
					return
				}
			}
		}
		if p.Ops[op].Kind == "reshare" || p.Ops[op].Kind == "gen" {
			g.CheckReveals("C19", g.Model(), "reveal")
		}
	})
}

// Proofs made directly, without a protocol around them.

func genEntropyProof(r *rand.Rand, p *core.Plan) {
	p.N = 1 + r.IntN(2)
	p.I = map[string]int64{"count": int64(1 + r.IntN(6)), "nth": int64(1 + r.IntN(10)), "always": int64(r.IntN(2))}
	p.Policy = r.IntN(6)
}

func runEntropyProof(e *Env) {
	p := e.Plan
	w := e.NewWorld(p)
	egf := w.Egf()
	for i := 0; i < p.N; i++ {
		pt := w.Party(i)
		if i == 0 {
			for j := 0; j < 1 || p.I["always"] == 1 && j < 100; j++ {
				pt.FailDraw[int(p.I["nth"])+j] = true
			}
		}
		w.Go(i, func(pt *core.Party) {
			r := core.NewRand(p.Seed, 61, uint64(pt.ID))
			for c := int64(0); c < p.I["count"]; c++ {
				pt.Yield()
				hit := w.Stats["fault.entropy"]
				v, s := Scalar(r), Scalar(r)
				cm := egf.Create(v, s)
				var err error
				var got bool
				var verr error
				name := "ZKEGKnow"
				if r.IntN(2) == 0 {
					var z *zkpok.ZKEGKnow
					if z, err = zkpok.NewZKEGKnow(egf, cm, v, s); z != nil {
						got = true
						verr = z.Verify(egf, cm)
					}
				} else {
					name = "ZKEGRefresh"
					c2 := egf.Neutral()
					c2.Compose(cm, egf.Create(new(big.Int), s))
					var z *zkpok.ZKEGRefresh
					if z, err = zkpok.NewZKEGRefresh(egf, cm, c2, s); z != nil {
						got = true
						verr = z.Verify(egf, cm, c2)
					}
				}
				failed := pt.ID == 0 && w.Stats["fault.entropy"] > hit
				if failed {
					e.Nontriv = true
				}
				switch {
				case failed && (err == nil || got):
					w.Violate("C19/failure-ignored", "a %s was produced without randomness (error: %v)", name, err)
				case !failed && err != nil:
					w.Violate("C19/no-recovery", "creating a %s failed although randomness was available: %v", name, err)
				case !failed && (!got || verr != nil):
					w.Violate("C19/bad-result", "the %s created is not valid: %v", name, verr)
				}
			}
		})
	}
	w.Finish(nil)
}

func init() {
	register("C19", &Scenario{Name: "entropy", Weight: 8, Gen: genEntropy, Run: runEntropy})
	register("C19", &Scenario{Name: "entropy-proof", Weight: 1, Gen: genEntropyProof, Run: runEntropyProof})
}

var _ = fmt.Sprint
var _ = ref.N
