package scen

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"math/rand/v2"

	"aaa.verif/sim/core"
	"aaa.verif/sim/ref"
)

// What travels before a secret is revealed (C18).

// shareMsg is one dealt sub-share: length, evaluation, randomness.
func parseShare(b []byte) (eval, rnd *big.Int, ok bool) {
	if len(b) < 4 {
		return nil, nil, false
	}
	l := int64(binary.LittleEndian.Uint32(b))
	if l > int64(len(b)-4) {
		return nil, nil, false
	}
	return new(big.Int).SetBytes(b[4 : 4+l]), new(big.Int).SetBytes(b[4+l:]), true
}

// dealt is one dealer's part in one resharing.
type dealt struct {
	party, op, sub int // sub: which resharing of the operation
	t              int
	eval           []*big.Int
	coef           []*big.Int
	full           bool
}

// reshareStarts lists the rounds of a call at which resharings begin.
func reshareStarts(kind string) []int {
	switch kind {
	case "reshare", "treshare":
		return []int{0}
	case "presign":
		return []int{4, 10, 16, 22}
	}
	return nil
}

// dealings collects every dealing of the run.
func (g *Program) dealings(prop string) []*dealt {
	var out []*dealt
	for k, op := range g.W.P.Ops {
		for sub, base := range reshareStarts(op.Kind) {
			t := int(op.C)
			if op.Kind == "presign" {
				t = int(op.A)
			}
			for i := range g.Apps {
				rec := g.Rec(i, k, base+4)
				if rec == nil {
					continue
				}
				d := &dealt{party: i, op: k, sub: sub, t: t, full: true}
				if len(rec.Sent) != g.W.N {
					g.W.Violate(prop+"/shares-broadcast", "party %d operation %d: the sub-shares are not sent one to each party", i, k)
					continue
				}
				for l, b := range rec.Sent {
					ev, rnd, ok := parseShare(b)
					if !ok {
						if l != i {
							g.W.Violate(prop+"/malformed-share", "party %d operation %d: the message to party %d holds no sub-share", i, k, l)
						}
						d.full = false
						d.eval = append(d.eval, nil)
						continue
					}
					if ev.Cmp(ref.N) >= 0 || rnd.Cmp(ref.N) >= 0 {
						g.W.Violate(prop+"/unreduced-share", "party %d operation %d: the sub-share or randomness sent to party %d is not reduced modulo the group order: its size tells about its summands", i, k, l)
					}
					d.eval = append(d.eval, ev)
				}
				out = append(out, d)
			}
		}
	}
	return out
}

// poly interpolates the polynomial of degree t-1 through the first t known evaluations and
// reports inconsistencies. Coefficients are computed modulo the group order.
func (g *Program) poly(prop string, d *dealt, at0 *ref.Point, lax bool) {
	var xs []int64
	var ys []*big.Int
	for l, e := range d.eval {
		if e != nil {
			xs = append(xs, int64(l+1))
			ys = append(ys, e)
		}
	}
	if len(xs) < d.t {
		return
	}
	coef := interpolate(xs[:d.t], ys[:d.t])
	for j := d.t; j < len(xs); j++ {
		if evalPoly(coef, xs[j]).Cmp(ys[j]) != 0 {
			g.W.Violate(prop+"/wrong-degree", "party %d operation %d: the sub-shares do not lie on a polynomial of degree %d, so %d of them do not determine the secret", d.party, d.op, d.t-1, d.t)
			return
		}
	}
	if at0 != nil && !ref.Eq(ref.Base(coef[0]), *at0) {
		if len(xs) == d.t {
			g.W.Violate(prop+"/wrong-degree", "party %d operation %d: %d sub-shares do not determine the shared value", d.party, d.op, d.t)
		} else {
			g.W.Violate(prop+"/wrong-secret", "party %d operation %d: the sub-shares determine another value than the committed one", d.party, d.op)
		}
		return
	}
	d.coef = coef
	small := new(big.Int).Lsh(big.NewInt(1), 128)
	for j := 1; j < d.t; j++ {
		c := coef[j]
		if j == d.t-1 && c.Sign() == 0 {
			g.W.Violate(prop+"/degree-too-low", "party %d operation %d: the sub-shares lie on a polynomial of degree below %d, so fewer than %d of them determine the secret", d.party, d.op, d.t-1, d.t)
			return
		}
		if lax {
			continue
		}
		if c.Cmp(small) < 0 || new(big.Int).Sub(ref.N, c).Cmp(small) < 0 {
			g.W.Violate(prop+"/predictable-coefficient", "party %d operation %d: coefficient %d of the sharing polynomial is %x, not a random integer below the group order", d.party, d.op, j, c)
		}
		for k := 0; k < j; k++ {
			if coef[k].Cmp(c) == 0 {
				g.W.Violate(prop+"/repeated-coefficient", "party %d operation %d: coefficients %d and %d of the sharing polynomial are equal", d.party, d.op, k, j)
			}
		}
	}
}

func interpolate(xs []int64, ys []*big.Int) []*big.Int {
	n := len(xs)
	out := make([]*big.Int, n)
	for i := range out {
		out[i] = new(big.Int)
	}
	for i := range xs {
		// product of (x - xs[j]) for j != i
		num := []*big.Int{big.NewInt(1)}
		den := big.NewInt(1)
		for j := range xs {
			if j == i {
				continue
			}
			nx := make([]*big.Int, len(num)+1)
			for k := range nx {
				nx[k] = new(big.Int)
			}
			for k, c := range num {
				nx[k+1].Add(nx[k+1], c)
				nx[k].Sub(nx[k], new(big.Int).Mul(c, big.NewInt(xs[j])))
			}
			num = nx
			den.Mul(den, big.NewInt(xs[i]-xs[j]))
		}
		den.Mod(den, ref.N).ModInverse(den, ref.N)
		den.Mul(den, ys[i])
		for k, c := range num {
			out[k].Add(out[k], new(big.Int).Mul(c, den))
			out[k].Mod(out[k], ref.N)
		}
	}
	return out
}

func evalPoly(c []*big.Int, x int64) *big.Int {
	v := new(big.Int)
	for i := len(c) - 1; i >= 0; i-- {
		v.Mul(v, big.NewInt(x)).Add(v, c[i])
		v.Mod(v, ref.N)
	}
	return v
}

type winKey [16]byte

func keyOf(b []byte) (k winKey, ok bool) {
	if len(b) < 24 {
		return k, false
	}
	copy(k[:], b[len(b)-16:])
	return k, true
}

type secretInfo struct {
	what  string
	only  int // party allowed to see it, -1: none
	step8 bool
}

// checkPrivacy judges all frames of the run.
func (g *Program) checkPrivacy(prop string) {
	w := g.W
	ds := g.dealings(prop)
	secrets := map[winKey]secretInfo{}
	add := func(v []byte, info secretInfo) {
		if k, ok := keyOf(v); ok {
			if _, dup := secrets[k]; !dup {
				secrets[k] = info
			}
		}
	}
	// what a party committed to in a gen operation whose secret it later shares
	committed := map[int]map[int64]ref.Point{}
	for i := range g.Apps {
		committed[i] = map[int64]ref.Point{}
		for k, op := range w.P.Ops {
			if op.Kind == "gen" {
				if eg, ok := g.published(i, k); ok {
					committed[i][op.A] = ref.Open(eg, w.Eta)
				}
			}
		}
	}
	trivial := map[string]bool{}
	coefs := map[winKey]string{}
	combined := map[[3]int]*big.Int{} // op, sub, party
	parts := map[[3]int]int{}
	for _, d := range ds {
		var at0 *ref.Point
		op := w.P.Ops[d.op]
		if op.Kind == "reshare" {
			if v, ok := committed[d.party][op.A]; ok {
				at0 = &v
			}
		}
		g.poly(prop, d, at0, false)
		if d.coef != nil {
			w.E.Nontriv = true
			w.Count("probe.sharing_polynomials")
		}
		for j := 1; j < len(d.coef); j++ {
			if k, ok := keyOf(d.coef[j].Bytes()); ok {
				me := fmt.Sprintf("party %d operation %d resharing %d coefficient %d", d.party, d.op, d.sub, j)
				if other, dup := coefs[k]; dup {
					w.Violate(prop+"/reused-coefficient", "%s equals %s", me, other)
				}
				coefs[k] = me
				add(d.coef[j].Bytes(), secretInfo{"coefficient of the sharing polynomial of " + me, -1, false})
			}
		}
		for l, ev := range d.eval {
			if ev == nil {
				continue
			}
			if d.t == 1 {
				trivial[string(ev.Bytes())] = true
			} else {
				add(ev.Bytes(), secretInfo{fmt.Sprintf("the sub-share dealt by party %d to party %d in operation %d", d.party, l, d.op), l, true})
			}
			key := [3]int{d.op, d.sub, l}
			if combined[key] == nil {
				combined[key] = new(big.Int)
			}
			combined[key].Add(combined[key], ev)
			parts[key]++
		}
	}
	shareOf := map[winKey][3]int{}
	for key, v := range combined {
		v.Mod(v, ref.N)
		if parts[key] == w.N {
			if k, ok := keyOf(v.Bytes()); ok {
				shareOf[k] = key
			}
		}
	}
	for i := range g.Apps {
		for j, dr := range w.Party(i).DrawLog {
			if !trivial[string(dr.B)] && !trivial[string(trimZero(dr.B))] {
				add(dr.B, secretInfo{fmt.Sprintf("value %d drawn at random by party %d in its call %d", j, i, dr.Call), -1, false})
			}
		}
	}
	revealed := map[[2]int]bool{}
	for _, f := range w.Tape {
		b := f.Payload
		for o := 0; o+16 <= len(b); o++ {
			var k winKey
			copy(k[:], b[o:])
			if s, ok := secrets[k]; ok && s.only != f.To {
				w.Violate(prop+"/secret-on-the-wire", "a message of party %d to party %d in its call %d (%s, round %d) contains %s", f.From, f.To, f.CallIdx, f.Call, f.Round, s.what)
			}
			if key, ok := shareOf[k]; ok {
				switch f.Call {
				case "reveal":
				case "sign":
					// a signature deliberately reveals one of the presignature's secrets
					revealed[[2]int{key[0], key[1]}] = true
				default:
					w.Violate(prop+"/share-on-the-wire", "a message of party %d to party %d in its call %d (%s) contains the share of party %d of the secret shared in operation %d before it is revealed", f.From, f.To, f.CallIdx, f.Call, key[2], key[0])
				}
			}
		}
	}
	per := map[int]int{}
	for k := range revealed {
		per[k[0]]++
	}
	for k, n := range per {
		if n > 1 {
			w.Violate(prop+"/presignature-opened", "signing revealed the shares of %d secrets of the presignature of operation %d", n, k)
		}
	}
	g.checkNonces(prop)
}

func trimZero(b []byte) []byte {
	for len(b) > 0 && b[0] == 0 {
		b = b[1:]
	}
	return b
}

// checkNonces: commitments and proofs use fresh randomness every time.
func (g *Program) checkNonces(prop string) {
	w := g.W
	seen := map[string]string{}
	fresh := func(p ref.Point, what string) {
		if p.Inf {
			w.Violate(prop+"/no-randomness", "%s uses no randomness", what)
			return
		}
		k := string(p.X.Bytes())
		if o, dup := seen[k]; dup {
			w.Violate(prop+"/reused-randomness", "%s uses the same randomness as %s", what, o)
		}
		seen[k] = what
	}
	comm := func(b []byte, n int, what string) []byte {
		for i := 0; i < n; i++ {
			eg, rest, err := ref.ParseEG(b)
			if err != nil {
				return nil
			}
			fresh(eg.First, fmt.Sprintf("commitment %d %s", i, what))
			b = rest
		}
		return b
	}
	proof := func(b []byte, n int, know bool, what string) []byte {
		for i := 0; i < n; i++ {
			if len(b) < 8 {
				return nil
			}
			l := int64(binary.BigEndian.Uint32(b)) + int64(binary.BigEndian.Uint32(b[4:]))
			if int64(len(b)-8) < l {
				return nil
			}
			eg, rest, err := ref.ParseEG(b[8+l:])
			if err != nil {
				return nil
			}
			fresh(eg.First, fmt.Sprintf("proof %d %s", i, what))
			if know && w.Eta != nil {
				fresh(ref.Open(eg, w.Eta), fmt.Sprintf("the value part of proof %d %s", i, what))
			}
			b = rest
		}
		return b
	}
	for k, op := range w.P.Ops {
		for i := range g.Apps {
			at := func(j int) []byte {
				if rec := g.Rec(i, k, j); rec != nil && len(rec.Sent) > 0 {
					return rec.Sent[0]
				}
				return nil
			}
			what := fmt.Sprintf("published by party %d in operation %d (%s)", i, k, op.Kind)
			t := int(op.C)
			if op.Kind == "presign" {
				t = int(op.A)
				for j := 0; j < 4; j++ {
					comm(at(j), 1, fmt.Sprintf("%s, secret %d", what, j))
				}
			}
			if op.Kind == "gen" {
				comm(at(0), 1, what)
			}
			if op.Kind == "mult" {
				comm(at(2), 1, what+", product")
				comm(at(3), 1, what+", partial product")
			}
			for sub, base := range reshareStarts(op.Kind) {
				// the value part of commitments in a presignature cannot be computed: its base is a key
				know := op.Kind != "presign"
				wh := fmt.Sprintf("%s, resharing %d, round ", what, sub)
				proof(at(base), 1, know, wh+"0")
				b := comm(at(base+2), t, wh+"2")
				b = proof(b, t, know, wh+"2, knowledge")
				proof(b, 1, false, wh+"2, refreshment")
				b = comm(at(base+3), w.N, wh+"3")
				proof(b, w.N, false, wh+"3")
				b = proof(at(base+5), 1, false, wh+"5")
				comm(b, 1, wh+"5")
			}
		}
	}
}

func genPrivacy(r *rand.Rand, p *core.Plan) {
	p.N = 2 + r.IntN(3)
	p.T = 1 + r.IntN(p.N)
	if p.T == 1 && r.IntN(3) > 0 {
		p.T = p.N
	}
	p.I = map[string]int64{"bits": 640}
	GenNetLight(r, p)
	t := int64(p.T)
	switch r.IntN(8) {
	case 0, 1:
		p.Ops = []core.Op{{Kind: "gen", A: 0}, {Kind: "reshare", A: 0, B: 10, C: t}, {Kind: "reveal", A: 10}}
	case 2, 3:
		p.Ops = []core.Op{{Kind: "gen", A: 0}, {Kind: "reshare", A: 0, B: 10, C: t}, {Kind: "reshare", A: 0, B: 11, C: int64(1 + r.IntN(p.N))}, {Kind: "exp", A: 10}, {Kind: "reveal", A: 11}}
	case 4:
		p.Ops = []core.Op{{Kind: "gen", A: 0}, {Kind: "gen", A: 1}, {Kind: "reshare", A: 0, B: 10, C: t}, {Kind: "reshare", A: 1, B: 11, C: t}, {Kind: "lin", A: 12, B: 10, C: 11}, {Kind: "exp", A: 12}, {Kind: "reveal", A: 12}}
	case 5:
		p.Ops = []core.Op{{Kind: "gen", A: 0}, {Kind: "gen", A: 1}, {Kind: "mult", A: 2, B: 0, C: 1}, {Kind: "reshare", A: 2, B: 10, C: t}, {Kind: "exp", A: 10}}
	case 6:
		p.Ops = []core.Op{{Kind: "keygen", A: 0}, {Kind: "checkdh", A: 0, B: 0}, {Kind: "gen", A: 1}, {Kind: "reshare", A: 1, B: 10, C: t}}
	case 7:
		p.N = 2 + r.IntN(2)
		p.T = min(p.T, p.N)
		p.Ops = []core.Op{{Kind: "init"}, {Kind: "presign", A: int64(p.T)}, {Kind: "sign", A: 1}}
	}
	// retry: everything again on fresh connections after a failure
	if r.IntN(4) == 0 && p.Ops[0].Kind == "gen" {
		p.I["continue"] = 1
		p.I["fail_op"] = int64(1)
		p.I["fail_round"] = int64(1 + r.IntN(5))
		p.I["fail_party"] = int64(r.IntN(p.N))
		p.Ops = append(p.Ops[:1:1], core.Op{Kind: "reshare", A: 0, B: 10, C: t}, core.Op{Kind: "reshare", A: 0, B: 10, C: t}, core.Op{Kind: "exp", A: 10})
		return
	}
	genDelays(r, p)
	if r.IntN(3) == 0 {
		genCrash(r, p, r.IntN(p.N), 1, len(p.Ops), 30)
	}
}

func runPrivacy(e *Env) {
	p := e.Plan
	g := e.NewProgram(p)
	g.Pail = paillierKeys(p.N, int(p.I["bits"]))
	g.DH = g.trueTriple
	if p.I["continue"] == 1 {
		g.Continue = true
		g.Apps[p.I["fail_party"]].FailRound = func(rec *Rec) error {
			if rec.Call == int(p.I["fail_op"])+1 && rec.InCall == int(p.I["fail_round"]) {
				return fmt.Errorf("injected failure of the round")
			}
			return nil
		}
	}
	g.Run(func() { g.checkPrivacy("C18") })
}

// The degree of the sharing polynomials, with sources of randomness that now and then return
// extreme numbers.

func genDegree(r *rand.Rand, p *core.Plan) {
	p.N = 2 + r.IntN(3)
	p.T = 2 + r.IntN(p.N-1)
	p.I = map[string]int64{"bias": int64(pick(r, 2, 3, 5))}
	GenNetLight(r, p)
	p.Ops = []core.Op{{Kind: "gen", A: 0}, {Kind: "reshare", A: 0, B: 10, C: int64(p.T)}, {Kind: "reveal", A: 10}}
}

func runDegree(e *Env) {
	p := e.Plan
	g := e.NewProgram(p)
	for i := range g.Apps {
		BiasRand(g.W, i, int(p.I["bias"]))
	}
	g.Run(func() {
		for _, d := range g.dealings("C18") {
			g.poly("C18", d, nil, true)
			if d.coef != nil {
				e.Nontriv = true
				g.W.Count("probe.sharing_polynomials")
			}
		}
	})
}

func init() {
	register("C18", &Scenario{Name: "degree", Weight: 1, Gen: genDegree, Run: runDegree})
	register("C18", &Scenario{Name: "privacy", Weight: 3, Gen: genPrivacy, Run: runPrivacy})
}
