package scen

import (
	"math/big"
	"math/rand/v2"

	"aaa.verif/sim/core"
	"aaa.verif/sim/ref"
)

// Threshold secrets: sharing, revealing, public keys and linear combinations (C09, C10, C13).

func genSize(r *rand.Rand, p *core.Plan, maxN int) {
	p.N = 2 + r.IntN(maxN-1)
	if p.N > 4 && r.IntN(2) == 0 {
		p.N = 3
	}
	switch x := r.IntN(80); {
	case x < 2 && maxN > 4:
		p.N = 7 + r.IntN(4)
	case x == 2:
		p.N = 1
	}
	p.T = 1 + r.IntN(p.N)
}

// genFailures plans crashes of some parties and, rarely, a broken connection. Calls before
// first are preparation.
func genFailures(r *rand.Rand, p *core.Plan, first, last int) {
	genDelays(r, p)
	n := 0
	switch r.IntN(6) {
	case 0:
	case 1, 2, 3:
		n = p.N - p.T // as many as must be survived
	case 4:
		n = p.N - p.T + 1
	case 5:
		n = r.IntN(p.N)
	}
	if n > p.N-1 {
		n = p.N - 1
	}
	lo := first
	if r.IntN(5) == 0 {
		lo = 1
	}
	together := r.IntN(2) == 0
	at, ops := lo+r.IntN(last-lo+1), r.IntN(4*p.N)
	for _, v := range Subset(r, p.N, n) {
		genCrash(r, p, v, lo, last, 4*p.N)
		if f := &p.Faults[len(p.Faults)-1]; together {
			f.Call, f.Ops = at, ops
		}
	}
	if r.IntN(12) == 0 && p.N > 1 {
		a := r.IntN(p.N)
		b := (a + 1 + r.IntN(p.N-1)) % p.N
		p.Faults = append(p.Faults, core.Fault{Kind: "reset", From: a, To: b, Off: r.IntN(9000), Mode: pickS(r, "fin", "rst", "lost")})
	}
}

func pickS(r *rand.Rand, xs ...string) string { return xs[r.IntN(len(xs))] }

func genSharing(kinds ...string) func(r *rand.Rand, p *core.Plan) {
	return func(r *rand.Rand, p *core.Plan) {
		genSize(r, p, 5)
		p.I = map[string]int64{"bias": int64(pick(r, 0, 0, 8, 3))}
		GenNetLight(r, p)
		p.Ops = []core.Op{{Kind: "gen", A: 0}, {Kind: "reshare", A: 0, B: 1, C: int64(p.T)}}
		if r.IntN(5) == 0 {
			// the same secret shared again with another threshold
			p.Ops = append(p.Ops, core.Op{Kind: "reshare", A: 0, B: 2, C: int64(1 + r.IntN(p.N))})
		}
		first := len(p.Ops) + 1
		for i, m := 0, 1+r.IntN(3); i < m; i++ {
			s := int64(1)
			if first == 4 && r.IntN(2) == 0 {
				s = 2
			}
			p.Ops = append(p.Ops, core.Op{Kind: kinds[r.IntN(len(kinds))], A: s})
		}
		p.Ops = append(p.Ops, core.Op{Kind: kinds[0], A: 1})
		genFailures(r, p, first, len(p.Ops))
	}
}

func runSharing(prop string, kinds ...string) func(e *Env) {
	return func(e *Env) {
		g := e.NewProgram(e.Plan)
		for i := range g.Apps {
			BiasRand(g.W, i, int(e.Plan.I["bias"]))
		}
		g.Run(func() {
			g.BadResults(prop)
			m := g.Model()
			g.CheckReveals(prop, m, kinds...)
			g.checkSurvivors(prop, m, kinds...)
			if !harmful(e.Plan) {
				g.MustSucceed(prop)
			}
		})
	}
}

// checkSurvivors: a party that went through a reveal together with at least t-1 other
// parties that did not fail has no excuse.
func (g *Program) checkSurvivors(prop string, m *Model, kinds ...string) {
	for _, f := range g.W.P.Faults {
		if f.Kind == "reset" {
			return
		}
	}
	through := func(i, k int) bool {
		r := g.Rec(i, k, 0)
		return r != nil && r.Done && !g.W.Party(i).Dead
	}
	for k, op := range g.W.P.Ops {
		ok := false
		for _, kd := range kinds {
			ok = ok || kd == op.Kind
		}
		if !ok {
			continue
		}
		alive := 0
		for i := range g.Apps {
			if through(i, k) {
				alive++
			}
		}
		for i, app := range g.Apps {
			res := app.Res[k]
			if res == nil || res.Call == nil || !res.Call.Done || res.Call.Err == nil || g.W.Party(i).Dead {
				continue
			}
			if alive >= m.ThrAt[k] {
				g.W.Violate(prop+"/survivor-fails", "party %d operation %d (%s) failed although %d parties took part in it to the end, threshold %d: %v", i, k, op.Kind, alive, m.ThrAt[k], res.Call.Err)
			}
		}
	}
}

func genLin(r *rand.Rand, p *core.Plan) {
	genSize(r, p, 4)
	p.I = map[string]int64{"bias": int64(pick(r, 0, 0, 6))}
	GenNetLight(r, p)
	t2 := int64(p.T)
	if r.IntN(3) == 0 {
		t2 = int64(1 + r.IntN(p.N))
		p.T = max(p.T, int(t2))
	}
	t1 := int64(p.T)
	if r.IntN(2) == 0 {
		t1, t2 = t2, t1
	}
	p.Ops = []core.Op{{Kind: "gen", A: 0}, {Kind: "gen", A: 1}, {Kind: "reshare", A: 0, B: 10, C: t1}, {Kind: "reshare", A: 1, B: 11, C: t2}}
	secrets := []int64{10, 11}
	for i, m := 0, 1+r.IntN(3); i < m; i++ {
		a, b := secrets[r.IntN(len(secrets))], secrets[r.IntN(len(secrets))]
		if i == 0 {
			a, b = 10, 11
		}
		id := int64(20 + i)
		p.Ops = append(p.Ops, core.Op{Kind: "lin", A: id, B: a, C: b, D: int64(i)})
		secrets = append(secrets, id)
		if r.IntN(3) == 0 {
			p.Ops = append(p.Ops, core.Op{Kind: pickS(r, "reveal", "exp"), A: id})
		}
	}
	first := len(p.Ops) + 1
	for _, s := range secrets {
		if s >= 20 || r.IntN(2) == 0 {
			p.Ops = append(p.Ops, core.Op{Kind: pickS(r, "reveal", "reveal", "exp"), A: s})
		}
	}
	p.Ops = append(p.Ops, core.Op{Kind: "reveal", A: secrets[r.IntN(len(secrets))]})
	genFailures(r, p, first, len(p.Ops))
}

// genLinReshare: linear combinations, and afterwards the inputs or the combination in
// another resharing.
func genLinReshare(r *rand.Rand, p *core.Plan) {
	p.N = 2 + r.IntN(2)
	p.T = 1 + r.IntN(p.N)
	GenNetLight(r, p)
	t := int64(p.T)
	p.Ops = []core.Op{{Kind: "gen", A: 0}, {Kind: "gen", A: 1}, {Kind: "reshare", A: 0, B: 10, C: t}, {Kind: "reshare", A: 1, B: 11, C: t},
		{Kind: "lin", A: 20, B: 10, C: 11, D: int64(r.IntN(3))}}
	all := []int64{20, 10, 11}
	if r.IntN(3) == 0 {
		p.Ops = append(p.Ops, core.Op{Kind: "lin", A: 21, B: all[r.IntN(3)], C: all[r.IntN(3)], D: 3 + int64(r.IntN(3))})
		all = append(all, 21)
	}
	for i, m := 0, 1+r.IntN(2); i < m; i++ {
		p.Ops = append(p.Ops, core.Op{Kind: "treshare", A: all[r.IntN(len(all))], B: 30 + int64(i), C: int64(1 + r.IntN(p.N))})
		p.Ops = append(p.Ops, core.Op{Kind: "reveal", A: 30 + int64(i)})
	}
	for _, s := range all {
		p.Ops = append(p.Ops, core.Op{Kind: "reveal", A: s})
	}
	genDelays(r, p)
}

// runLinReshare shares the parties' shares of a linear combination, or of its inputs, once
// more. That only works if every party's idea of its share, its randomness and the
// published commitments of the secret fit together. The result is the sum of the shares.
func runLinReshare(e *Env) {
	g := e.NewProgram(e.Plan)
	g.Run(func() {
		g.BadResults("C13")
		m := g.Model()
		g.MustSucceed("C13")
		g.CheckReveals("C13", m, "exp")
		shares := map[int64]*big.Int{} // sum of the shares parties revealed
		from := map[int64]int64{}
		for k, op := range e.Plan.Ops {
			switch op.Kind {
			case "treshare":
				from[op.B] = op.A
			case "reveal":
				sum := new(big.Int)
				for i := range g.Apps {
					rec := g.Rec(i, k, 0)
					if rec == nil || len(rec.Sent) == 0 {
						sum = nil
						break
					}
					sum.Add(sum, new(big.Int).SetBytes(rec.Sent[0]))
				}
				if sum != nil {
					shares[op.A] = sum.Mod(sum, ref.N)
				}
			}
		}
		for k, op := range e.Plan.Ops {
			if op.Kind != "reveal" {
				continue
			}
			for i, app := range g.Apps {
				r := app.Res[k]
				if r == nil || !r.HasVal {
					continue
				}
				a, again := from[op.A]
				if !again {
					if want, ok := m.Val[k]; ok && !ref.Eq(ref.Base(r.Val), want) {
						g.W.Violate("C13/wrong-value", "party %d operation %d: revealed %x, which is not the linear combination", i, k, r.Val)
					}
				} else if sum := shares[a]; sum != nil && r.Val.Cmp(sum) != 0 {
					g.W.Violate("C13/combination-unusable", "party %d: secret %d, used in a further protocol, gives %x instead of %x", i, a, r.Val, sum)
				} else if sum != nil {
					e.Nontriv = true
					g.W.Count("probe.combination_reshared")
				}
			}
		}
	})
}

func init() {
	register("C09", &Scenario{Name: "sharing", Weight: 4, Gen: genSharing("reveal"), Run: runSharing("C09", "reveal")})
	register("C10", &Scenario{Name: "public-key", Weight: 4, Gen: genSharing("exp", "exp", "reveal"), Run: runSharing("C10", "exp", "reveal")})
	register("C13", &Scenario{Name: "lin", Weight: 4, Gen: genLin, Run: runSharing("C13", "reveal", "exp")})
	register("C13", &Scenario{Name: "lin-further", Weight: 1, Gen: genLinReshare, Run: runLinReshare})
}
