package scen

import (
	"fmt"
	"math/big"
	"math/rand/v2"

	"aaa.verif/sim/core"
	"aaa.verif/sim/ref"
)

// Presigning and signing (C16, C17).

// msgFor is message number a of a run, extremes included.
func msgFor(seed uint64, a int64) *big.Int {
	r := core.NewRand(seed, 31, uint64(a))
	switch r.IntN(8) {
	case 0:
		return new(big.Int)
	case 1:
		return new(big.Int).Add(ref.N, big.NewInt(int64(r.IntN(3))))
	case 2:
		return Wide(r, 64)
	case 3:
		return big.NewInt(int64(r.IntN(1000)))
	}
	return Scalar(r)
}

// presigOpenings opens the four secrets each presign operation is made of; the base of their
// commitments is the first or second key generated by Init, whose secret is the sum of what
// the parties drew.
func (g *Program) presigOpenings(k int) (pts [4]ref.Point, ok bool) {
	etas := g.keySecrets(0)
	for _, eta := range etas {
		good := true
		for j := 0; j < 4 && good; j++ {
			pts[j] = ref.O
			for i := range g.Apps {
				rec := g.Rec(i, k, j)
				if rec == nil || len(rec.Sent) == 0 {
					return pts, false
				}
				eg, _, err := ref.ParseEG(rec.Sent[0])
				if err != nil {
					return pts, false
				}
				// the opening must be one of the party's draws, else the base is another
				v := ref.Open(eg, eta)
				if !g.isDraw(i, k, v) {
					good = false
					break
				}
				pts[j] = ref.Add(pts[j], v)
			}
		}
		if good {
			return pts, true
		}
	}
	return pts, false
}

func (g *Program) isDraw(i, k int, v ref.Point) bool {
	for _, d := range g.W.Party(i).DrawLog {
		if d.Call == k+1 && ref.Eq(ref.Base(new(big.Int).SetBytes(d.B)), v) {
			return true
		}
	}
	return false
}

// keySecrets recovers the secrets of the keys generated in operation k (an init) from the
// parties' draws and the points they published.
func (g *Program) keySecrets(k int) []*big.Int {
	var out []*big.Int
	for j := 1; j < 4; j += 2 {
		sum := new(big.Int)
		ok := true
		for i := range g.Apps {
			rec := g.Rec(i, k, j)
			if rec == nil || len(rec.Sent) == 0 {
				ok = false
				break
			}
			pt, _, err := ref.Parse(rec.Sent[0])
			found := false
			for _, d := range g.W.Party(i).DrawLog {
				v := new(big.Int).SetBytes(d.B)
				if err == nil && d.Call == k+1 && ref.Eq(ref.Base(v), pt) {
					sum.Add(sum, v)
					found = true
					break
				}
			}
			ok = ok && found
		}
		if ok {
			out = append(out, sum.Mod(sum, ref.N))
		}
	}
	return out
}

// initKey is the public key of operation k (an init): the sum of the points published first.
func (g *Program) initKey(k int) (ref.Point, bool) {
	sum := ref.O
	for i := range g.Apps {
		rec := g.Rec(i, k, 1)
		if rec == nil || len(rec.Sent) == 0 {
			return sum, false
		}
		pt, _, err := ref.Parse(rec.Sent[0])
		if err != nil {
			return sum, false
		}
		sum = ref.Add(sum, pt)
	}
	return sum, true
}

func genSign(r *rand.Rand, p *core.Plan) {
	p.N = 2 + r.IntN(3)
	p.T = 1 + r.IntN(p.N)
	if p.T == p.N && r.IntN(2) == 0 {
		p.T = max(1, p.N-1)
	}
	p.I = map[string]int64{}
	GenNetLight(r, p)
	p.Ops = []core.Op{{Kind: "init"}}
	m := 1
	if p.N <= 3 && r.IntN(3) == 0 {
		m = 2
	}
	for i := 0; i < m; i++ {
		p.Ops = append(p.Ops, core.Op{Kind: "presign", A: int64(p.T)})
	}
	first := len(p.Ops) + 1
	for i := 0; i < m; i++ {
		p.Ops = append(p.Ops, core.Op{Kind: "sign", A: int64(i)})
	}
	genDelays(r, p)
	n := 0
	switch r.IntN(4) {
	case 0:
	case 1, 2:
		n = p.N - p.T
	case 3:
		n = min(p.N-1, p.N-p.T+1)
	}
	for _, v := range Subset(r, p.N, n) {
		genCrash(r, p, v, first, len(p.Ops), 8*p.N)
	}
	if r.IntN(10) == 0 {
		a := r.IntN(p.N)
		p.Faults = append(p.Faults, core.Fault{Kind: "reset", From: a, To: (a + 1 + r.IntN(p.N-1)) % p.N, Off: 20000 + r.IntN(60000), Mode: pickS(r, "fin", "rst", "lost")})
	}
}

// runSign plays histories of presigning and signing with crashes while signing.
func runSign(e *Env) {
	p := e.Plan
	g := e.NewProgram(p)
	w := g.W
	g.Tolerate["sign"] = true
	g.Msg = func(a int64) *big.Int { return msgFor(p.Seed, a) }
	g.Run(func() {
		g.BadResults("C16")
		if !harmful(p) {
			g.MustSucceed("C16")
		}
		g.checkSignSurvivors()
		var pre []int
		for k, op := range p.Ops {
			switch op.Kind {
			case "presign":
				pre = append(pre, k)
				continue
			case "sign":
			default:
				continue
			}
			if len(pre) == 0 {
				break
			}
			var r0, s0 *big.Int
			who := -1
			for i, app := range g.Apps {
				res := app.Res[k]
				if res == nil || res.Call == nil || !res.Call.Done || res.Call.Err != nil || !res.HasSig {
					continue
				}
				if res.S.Sign() < 0 || res.S.Cmp(ref.N) >= 0 {
					w.Violate("C16/unreduced", "party %d operation %d: the second component %x is not below the group order", i, k, res.S)
				}
				if who < 0 {
					who, r0, s0 = i, res.R, res.S
					continue
				}
				if r0.Cmp(res.R) != 0 || s0.Cmp(res.S) != 0 {
					w.Violate("C16/different-signatures", "operation %d: party %d returned (%x, %x) and party %d (%x, %x)", k, who, r0, s0, i, res.R, res.S)
				}
			}
			if who < 0 {
				continue
			}
			e.Nontriv = true
			w.Count("probe.signature_checked")
			// which of the presignatures it used is not prescribed
			good, known := false, true
			for _, pk := range pre {
				pts, ok := g.presigOpenings(pk)
				known = known && ok
				good = good || ok && sigRelation(pts, r0, s0, g.Msg(p.Ops[k].A))
			}
			switch {
			case good:
				w.Count("probe.signature_equation_checked")
			case !known:
				w.Count("probe.presignature_not_opened")
			default:
				w.Violate("C16/wrong-signature", "operation %d: the second component %x of the signature of %x is not determined by the message, the first component and a presignature as it should be", k, s0, g.Msg(p.Ops[k].A))
			}
		}
	})
}

// sigRelation: s*tau = m*rho + r*eta for three of the four secrets of the presignature.
func sigRelation(pts [4]ref.Point, r, s, m *big.Int) bool {
	var st, mr, re [4]ref.Point
	for i, p := range pts {
		st[i], mr[i], re[i] = ref.Mul(p, s), ref.Mul(p, m), ref.Mul(p, r)
	}
	for a := 0; a < 4; a++ {
		for b := 0; b < 4; b++ {
			for c := 0; c < 4; c++ {
				if a != b && b != c && a != c && ref.Eq(st[a], ref.Add(mr[b], re[c])) {
					return true
				}
			}
		}
	}
	return false
}

// checkSignSurvivors: signing succeeds at every party that went through it with enough others.
func (g *Program) checkSignSurvivors() {
	for _, f := range g.W.P.Faults {
		if f.Kind == "reset" {
			return
		}
	}
	t := g.W.T
	for k, op := range g.W.P.Ops {
		if op.Kind != "sign" {
			continue
		}
		alive := 0
		for i, app := range g.Apps {
			if r := app.Res[k]; r != nil && r.Call != nil && r.Call.Done && !g.W.Party(i).Dead {
				alive++
			}
		}
		for i, app := range g.Apps {
			r := app.Res[k]
			if r == nil || r.Call == nil || !r.Call.Done || r.Call.Err == nil || g.W.Party(i).Dead {
				continue
			}
			if alive >= t {
				g.W.Violate("C16/survivor-fails", "party %d operation %d: signing failed although %d parties took part in it to the end, threshold %d: %v", i, k, alive, t, r.Call.Err)
			}
		}
	}
}

// One presignature, several worlds which differ in the message only.

func genSignWorlds(r *rand.Rand, p *core.Plan) {
	p.N = 2 + r.IntN(2)
	p.T = 1 + r.IntN(p.N)
	p.I = map[string]int64{}
	GenNetLight(r, p)
	p.Ops = []core.Op{{Kind: "init"}, {Kind: "presign", A: int64(p.T)}, {Kind: "sign", A: 0}}
}

func runSignWorlds(e *Env) {
	p := e.Plan
	r := core.NewRand(p.Seed, 71)
	m1, m2 := Scalar(r), Scalar(r)
	msgs := []*big.Int{m1, m2, new(big.Int).Add(m1, m2), new(big.Int).Add(m1, ref.N)}
	var rs, ss []*big.Int
	for _, m := range msgs {
		g := e.NewProgram(p)
		g.Msg = func(int64) *big.Int { return m }
		g.Run(func() {
			g.MustSucceed("C16")
			if res := g.Apps[0].Res[2]; res != nil && res.HasSig {
				rs, ss = append(rs, res.R), append(ss, res.S)
			}
		})
	}
	if len(rs) < len(msgs) {
		return
	}
	e.Nontriv = true
	for i := range rs {
		if rs[i].Cmp(rs[0]) != 0 {
			e.V("C16/first-component-depends-on-message", "the first components of the signatures of %x and %x made with the same presignature differ: %x and %x", msgs[0], msgs[i], rs[0], rs[i])
		}
	}
	sub := func(a, b *big.Int) *big.Int { x := new(big.Int).Sub(a, b); return x.Mod(x, ref.N) }
	mul := func(a, b *big.Int) *big.Int { x := new(big.Int).Mul(a, b); return x.Mod(x, ref.N) }
	if mul(sub(ss[1], ss[0]), sub(msgs[2], msgs[0])).Cmp(mul(sub(ss[2], ss[0]), sub(msgs[1], msgs[0]))) != 0 {
		e.V("C16/not-affine", "the second components of signatures made with the same presignature do not depend on the message in an affine way: %x of %x", ss, msgs)
	}
	if ss[3].Cmp(ss[0]) != 0 {
		e.V("C16/not-modulo-order", "messages that are equal modulo the group order get different signatures: %x and %x", ss[0], ss[3])
	}
	if m1.Cmp(m2) != 0 && ss[1].Cmp(ss[0]) == 0 {
		e.V("C16/message-ignored", "different messages got the same signature with the same presignature")
	}
}

func runECDSA(e *Env) {
	p := e.Plan
	g := e.NewProgram(p)
	g.Run(func() {
		g.MustSucceed("C16")
		pk, ok := g.initKey(0)
		res := g.Apps[0].Res[2]
		if !ok || res == nil || !res.HasSig {
			return
		}
		e.Nontriv = true
		if !ref.Verify(pk, g.Msg(0), res.R, res.S) {
			g.W.Violate("C16/not-ecdsa", "the signature (%x, %x) of %x does not verify as an ECDSA signature under the generated public key", res.R, res.S, g.Msg(0))
		}
	})
}

func directedECDSA() []*core.Plan {
	return []*core.Plan{{N: 2, T: 2, Seed: 7, Net: core.Net{BufCap: 4096}, Ops: []core.Op{{Kind: "init"}, {Kind: "presign", A: 2}, {Kind: "sign", A: 0}}}}
}

// ---- histories of presigning and signing (C17) ----

func genHistory(r *rand.Rand, p *core.Plan) {
	p.N = 2
	if r.IntN(3) == 0 {
		p.N = 3
	}
	p.T = p.N
	if r.IntN(3) == 0 {
		p.T = 1 + r.IntN(p.N)
	}
	p.I = map[string]int64{}
	GenNetLight(r, p)
	p.Net.BufCap, p.Net.Window = pick(r, 4096, 65536), 0
	if p.Net.Seg > 0 && r.IntN(2) == 0 {
		p.Net.Seg = 0
	}
	p.Ops = []core.Op{{Kind: "init"}}
	pre := 1 + r.IntN(3)
	for i, left, m := 0, pre, pre+1+r.IntN(4); i < m; i++ {
		if left > 0 && (r.IntN(2) == 0 || m-i <= left) {
			p.Ops = append(p.Ops, core.Op{Kind: "presign", A: int64(p.T)})
			left--
		} else {
			p.Ops = append(p.Ops, core.Op{Kind: "sign", A: int64(i)})
		}
	}
	// what remains is used up, and once more
	for i, m := 0, 1+r.IntN(2); i < m; i++ {
		p.Ops = append(p.Ops, core.Op{Kind: "sign", A: int64(20 + i)})
	}
	// failures: an operation one party does not take part in, an injected failure of a round,
	// a broken connection
	for i, m := 0, r.IntN(4); i < m; i++ {
		k := 1 + r.IntN(len(p.Ops)-1)
		v := r.IntN(p.N)
		max := 28
		off := 4 + r.IntN(30000)
		if p.Ops[k].Kind == "sign" {
			max, off = 3, r.IntN(260)
		}
		switch r.IntN(4) {
		case 0:
			p.Faults = append(p.Faults, core.Fault{Kind: "absent", From: v, Call: k})
		case 1:
			p.Faults = append(p.Faults, core.Fault{Kind: "failround", From: v, Call: k, N: r.IntN(max)})
		case 2:
			p.Faults = append(p.Faults, core.Fault{Kind: "reset", From: v, To: (v + 1 + r.IntN(p.N-1)) % p.N, N: k, Off: off, Mode: pickS(r, "fin", "rst", "lost")})
		case 3:
			// the very end of the operation, or of one of its parts
			n := max - 1
			if p.Ops[k].Kind == "presign" && r.IntN(2) == 0 {
				n = pick(r, 3, 9, 15, 21)
			}
			p.Faults = append(p.Faults, core.Fault{Kind: "failround", From: v, Call: k, N: n})
		}
	}
}

func runHistory(e *Env) {
	p := e.Plan
	g := e.NewProgram(p)
	w := g.W
	g.Continue = true
	g.Msg = func(a int64) *big.Int { return msgFor(p.Seed, a) }
	cur := make([]int, p.N)
	began := map[[2]int]int{}
	g.Before = func(app *App, k int) {
		cur[app.ID] = k
		began[[2]int{app.ID, k}] = app.Party.Frames
	}
	g.Skip = func(app *App, k int) bool {
		for _, f := range p.Faults {
			if f.Kind == "absent" && f.From == app.ID && f.Call == k {
				w.Count("fault.absent")
				return true
			}
		}
		return false
	}
	for _, app := range g.Apps {
		app.FailRound = func(rec *Rec) error {
			for _, f := range p.Faults {
				if f.Kind == "failround" && f.From == app.ID && f.Call == cur[app.ID] && f.N == rec.InCall {
					return fmt.Errorf("injected failure of the round")
				}
			}
			return nil
		}
	}
	g.Run(func() {
		g.BadResults("C17")
		g.roundErrors("C17", "presign")
		g.checkHistory(cur, began)
	})
}

// checkHistory compares each party's history with a queue of presignatures.
func (g *Program) checkHistory(cur []int, began map[[2]int]int) {
	w := g.W
	// party i's share of the nonce of every sharing made while presigning, times G
	type origin struct{ op, sub int }
	for i, app := range g.Apps {
		shares := map[string]origin{}
		for _, d := range g.combinedShares(i) {
			shares[string(ref.Enc(ref.Base(d.v)))] = origin{d.op, d.sub}
		}
		var queue []int
		used := map[string]int{}
		usedPre := map[int]int{}
		for k, op := range w.P.Ops {
			res := app.Res[k]
			if res == nil || res.Call == nil || !res.Call.Done {
				continue
			}
			switch op.Kind {
			case "presign":
				if res.Call.Err == nil {
					queue = append(queue, k)
				} else {
					w.Count("probe.failed_presign")
				}
			case "sign":
				sent := len(res.Call.Recs) > 0
				if len(queue) == 0 {
					w.E.Nontriv = true
					w.Count("probe.sign_without_presignature")
					if res.Call.Err == nil {
						w.Violate("C17/signed-without-presignature", "party %d operation %d: signing succeeded although no presignature was left", i, k)
					}
					if sent {
						w.Violate("C17/sent-without-presignature", "party %d operation %d: signing sent messages although no presignature was left", i, k)
					}
					continue
				}
				queue = queue[1:]
				if !sent {
					w.Violate("C17/presignature-lost", "party %d operation %d: signing did not even start although %d presignatures were left: %v", i, k, len(queue)+1, res.Call.Err)
					continue
				}
				if res.Call.Err != nil {
					w.Count("probe.failed_sign")
				}
				key := string(res.Call.Recs[0].Sent[0])
				if prev, dup := used[key]; dup {
					w.Violate("C17/nonce-reused", "party %d operations %d and %d: two signing attempts used the same nonce", i, prev, k)
				}
				used[key] = k
				o, ok := shares[key]
				if !ok {
					w.Count("probe.nonce_of_unknown_origin")
					continue
				}
				w.E.Nontriv = true
				w.Count("probe.nonce_traced")
				if r := app.Res[o.op]; r == nil || r.Call == nil || r.Call.Err != nil {
					w.Violate("C17/incomplete-presignature-used", "party %d operation %d: signing used the presignature of operation %d, which failed", i, k, o.op)
				}
				if prev, dup := usedPre[o.op]; dup {
					w.Violate("C17/nonce-reused", "party %d operations %d and %d: two signing attempts used the presignature of operation %d", i, prev, k, o.op)
				}
				usedPre[o.op] = k
				if o.op > k {
					w.Violate("C17/HARNESS", "presignature from the future")
				}
			}
		}
	}
}

type comb struct {
	op, sub int
	v       *big.Int
}

// combinedShares computes party i's share of every secret shared in a presign operation, as
// far as all sub-shares were dealt.
func (g *Program) combinedShares(i int) []comb {
	var out []comb
	for k, op := range g.W.P.Ops {
		if op.Kind != "presign" {
			continue
		}
		for sub, base := range reshareStarts(op.Kind) {
			sum := new(big.Int)
			ok := true
			for j := range g.Apps {
				rec := g.Rec(j, k, base+4)
				if rec == nil || i >= len(rec.Sent) {
					ok = false
					break
				}
				ev, _, good := parseShare(rec.Sent[i])
				if !good {
					ok = false
					break
				}
				sum.Add(sum, ev)
			}
			if ok {
				out = append(out, comb{k, sub, sum.Mod(sum, ref.N)})
			}
		}
	}
	return out
}

func init() {
	register("C16", &Scenario{Name: "sign", Weight: 6, Gen: genSign, Run: runSign})
	register("C16", &Scenario{Name: "sign-worlds", Weight: 1, Gen: genSignWorlds, Run: runSignWorlds})
	register("C16", &Scenario{Name: "ecdsa", Weight: 0, Directed: directedECDSA, Run: runECDSA})
	register("C17", &Scenario{Name: "history", Weight: 1, Gen: genHistory, Run: runHistory})
}
