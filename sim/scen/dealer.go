package scen

import (
	"bytes"
	"errors"
	"io"
	"math/big"
	"math/rand/v2"
	"time"

	"aaa.verif/sim/core"
	"aaa.verif/sim/ref"
	pkg "gitlab.com/alephledger/threshold-ecdsa/pkg/crypto"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
)

// Resharing with a cheating dealer (C11). The dealer is written here: it follows the
// protocol over the real sync server up to the planned cheat, which it carries out
// consistently in all later messages, as far as possible.
//
// Plan: a fault of kind "byz": From the dealer, Call the resharing operation it cheats in,
// To the cheated recipient (-1: all), N a parameter, Mode the cheat. Cheats and the round
// in which they must be noticed:

var cheats = map[string]int{
	"none": -1,
	// step 1: knowledge of the secret
	"know-value": 0, "know-second": 0, "know-other": 0, "know-peer": 0, "know-spoilt": 0,
	// steps 4 and 5: commitments to the coefficients
	"coef0-value": 2, "coef0-scaled": 2, "coef0-old-proof": 2, "coef-know": 2, "coef-unknown": 2, "coef-swapped-proofs": 2,
	"open-other": 2, "open-proofs": 2, "open-nothing": 2, "open-short": 2, "open-peer": 2, "open-spoilt": 2, "commit-spoilt": 2,
	// step 7: commitments to the evaluations
	"eval-value": 3, "eval-scaled": 3, "eval-swap": 3, "eval-same": 3, "eval-peer": 3, "eval-old": 3, "eval-spoilt": 3,
	// step 8: shares
	"share-plus": 4, "share-rand": 4, "share-second": 4, "share-other": 4, "share-swap": 4, "share-zero": 4, "share-short": 4, "share-empty": 4, "share-old": 4, "share-peer": 4, "share-spoilt": 4,
	// step 10: commitments to the new shares
	"final-value": 5, "final-scaled": 5, "final-old": 5, "final-peer": 5, "final-first": 5, "final-spoilt": 5,
	// everything, the original commitment included, copied from another party
	"copy": 4,
	// different dealings to different parties, each consistent in itself
	"equiv-poly": -1, "equiv-rand": -1, "equiv-same-evals": -1,
}

var cheatNames []string

func init() {
	for k := range cheats {
		cheatNames = append(cheatNames, k)
	}
	sortStrings(cheatNames)
}

func sortStrings(a []string) {
	for i := range a {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

func genDealer(r *rand.Rand, p *core.Plan) {
	p.N = 2 + r.IntN(3)
	p.T = 1 + r.IntN(p.N)
	GenNetLight(r, p)
	p.I = map[string]int64{"bias": int64(pick(r, 0, 0, 4))}
	p.Ops = []core.Op{{Kind: "gen", A: 0}, {Kind: "reshare", A: 0, B: 1, C: int64(p.T)}}
	call := 1
	mode := cheatNames[r.IntN(len(cheatNames))]
	switch mode {
	case "know-other", "coef0-old-proof", "eval-old", "share-old", "final-old":
		call = 2
	}
	if call == 2 || r.IntN(6) == 0 {
		p.Ops = append(p.Ops, core.Op{Kind: "reshare", A: 0, B: 2, C: int64(p.T)})
		call = 2
	}
	p.Ops = append(p.Ops, core.Op{Kind: "reveal", A: int64(call)})
	d := r.IntN(p.N)
	to := -1
	if r.IntN(2) == 0 {
		to = (d + 1 + r.IntN(p.N-1)) % p.N
	}
	p.Faults = append(p.Faults, core.Fault{Kind: "byz", From: d, To: to, Call: call, N: r.IntN(1 << 16), Mode: mode})
	genDelays(r, p)
	if p.N > 2 && r.IntN(8) == 0 {
		a := (d + 1 + r.IntN(p.N-1)) % p.N
		if r.IntN(2) == 0 {
			p.Faults = append(p.Faults, core.Fault{Kind: "reset", From: a, To: (a + 1 + r.IntN(p.N-1)) % p.N, Off: 2 + r.IntN(4000), Mode: pickS(r, "fin", "rst", "lost")})
		} else {
			genCrash(r, p, a, 2, len(p.Ops), 8*p.N)
		}
	}
}

// dealing is everything a dealer computes for one polynomial.
type dealing struct {
	f, rho   []*big.Int // coefficients and the randomness of their commitments
	c        []ref.EG
	know     [][]byte
	refresh  []byte
	e        []ref.EG // commitments to the evaluations, by recipient
	l        []ref.EG // refreshed
	lz       [][]byte
	val, rnd []*big.Int // openings of l
}

func (d *dealing) data() (out []byte) {
	for _, c := range d.c {
		out = append(out, ref.EncEG(c)...)
	}
	return out
}

func (d *dealing) zkp() (out []byte) {
	for _, k := range d.know {
		out = append(out, k...)
	}
	return append(out, d.refresh...)
}

func nmc(data, zkp []byte) []byte {
	out := append(le32(uint32(len(data))), le32(uint32(len(zkp)))...)
	return append(append(out, data...), zkp...)
}

func (d *dealing) evals() (out []byte) {
	for _, c := range d.l {
		out = append(out, ref.EncEG(c)...)
	}
	for _, z := range d.lz {
		out = append(out, z...)
	}
	return out
}

func shareBytes(v, r *big.Int) []byte {
	b := v.Bytes()
	return append(append(le32(uint32(len(b))), b...), r.Bytes()...)
}

type dealer struct {
	g      *Program
	app    *App
	f      *core.Fault
	r      *rand.Rand
	v, rnd *big.Int
	eg     ref.EG
	all    []ref.EG // original commitments of everybody
	share  *big.Int
	last   map[int][]byte // what was sent in each round of the previous resharing (to no one in particular)
	lastTo map[int][]byte // the shares of the previous resharing
	old    *dealing
	devs   []deviation
}

func (d *dealer) scalar() *big.Int {
	for {
		if k := modN(Wide(d.r, 40)); k.Sign() != 0 {
			return k
		}
	}
}

func encodeProof(z interface{ Encode(io.Writer) error }, err error) []byte {
	var b sliceWriter
	if err == nil {
		err = z.Encode(&b)
	}
	if err != nil {
		panic("harness: making a proof: " + err.Error())
	}
	return b
}

func (d *dealer) know(c ref.EG, v, r *big.Int) []byte {
	z, err := zkpok.NewZKEGKnow(d.g.Egf[d.app.ID], ToEG(c), v, r)
	return encodeProof(z, err)
}

func (d *dealer) proveRefresh(c1, c2 ref.EG, r *big.Int) []byte {
	z, err := zkpok.NewZKEGRefresh(d.g.Egf[d.app.ID], ToEG(c1), ToEG(c2), r)
	return encodeProof(z, err)
}

// scaledRefresh pretends that a*c1 + Create(0, s) is a refreshment of c1.
func (d *dealer) scaledRefresh(c1, c2 ref.EG, a, s *big.Int) []byte {
	sigma := d.scalar()
	xy := ref.Commit(d.g.W.H, new(big.Int), sigma)
	var in []byte
	for _, x := range []ref.EG{c1, c2, xy} {
		in = append(in, ref.EncEG(x)...)
	}
	e := modN(pkg.HashToBigInt(in))
	return rawProof{modN(new(big.Int).Add(sigma, new(big.Int).Mul(e, s))), modN(new(big.Int).Mul(e, a)), xy}.bytes()
}

// spoil makes something else of a message, mostly something that cannot be decoded.
func (d *dealer) spoil(b []byte) []byte {
	if len(b) == 0 {
		return []byte{1}
	}
	switch d.f.N % 5 {
	case 0:
		return []byte{}
	case 1:
		return append([]byte(nil), b[:d.r.IntN(len(b))]...)
	case 2:
		return append([]byte(nil), b[1:]...)
	case 3:
		return append([]byte(nil), b[:len(b)-1]...)
	}
	c := make([]byte, len(b))
	for i := range c {
		c[i] = byte(d.r.Uint32())
	}
	return c
}

// deal makes a dealing of value v0, committed to with randomness r0 as c0.
func (d *dealer) deal(t int, v0, r0 *big.Int, c0 ref.EG, f []*big.Int) *dealing {
	h := d.g.W.H
	n := d.g.W.N
	x := &dealing{}
	for i := 0; i < t; i++ {
		if i == 0 {
			x.f, x.rho, x.c = append(x.f, v0), append(x.rho, r0), append(x.c, c0)
		} else {
			v := d.scalar()
			if f != nil {
				v = f[i]
			}
			r := d.scalar()
			x.f, x.rho, x.c = append(x.f, v), append(x.rho, r), append(x.c, ref.Commit(h, v, r))
		}
		x.know = append(x.know, d.know(x.c[i], x.f[i], x.rho[i]))
	}
	for l := 1; l <= n; l++ {
		v, r, c := new(big.Int), new(big.Int), ref.EG{First: ref.O, Second: ref.O}
		p := big.NewInt(1)
		for i := 0; i < t; i++ {
			v.Add(v, new(big.Int).Mul(x.f[i], p))
			r.Add(r, new(big.Int).Mul(x.rho[i], p))
			c = ref.AddEG(c, ref.MulEG(x.c[i], p))
			p = new(big.Int).Mul(p, big.NewInt(int64(l)))
		}
		s := d.scalar()
		lc := ref.AddEG(c, ref.Commit(h, new(big.Int), s))
		x.e, x.l, x.lz = append(x.e, c), append(x.l, lc), append(x.lz, d.proveRefresh(c, lc, s))
		x.val, x.rnd = append(x.val, modN(v)), append(x.rnd, modN(r.Add(r, s)))
	}
	return x
}

// honest makes a dealing as the protocol demands.
func (d *dealer) honest(t int) *dealing {
	s := d.scalar()
	c0 := ref.AddEG(d.eg, ref.Commit(d.g.W.H, new(big.Int), s))
	x := d.deal(t, d.v, modN(new(big.Int).Add(d.rnd, s)), c0, nil)
	x.refresh = d.proveRefresh(d.eg, c0, s)
	return x
}

// peer waits for what party j sends in the current round.
func (d *dealer) peer(j int) []byte {
	n := d.app.Node
	round := int64(len(n.Recs))
	for tries := 0; tries < 1000; tries++ {
		var got []byte
		found, dead := false, false
		d.g.W.Locked(func() {
			for _, f := range d.g.W.Tape {
				if f.From == j && f.To == n.ID && f.Round == round {
					got, found = append([]byte(nil), f.Payload...), true
				}
			}
			dead = d.g.W.Party(j).Dead
		})
		if found || dead {
			return got
		}
		if in, ok := d.g.W.In(j, n.ID); ok && in.Broken {
			return nil
		}
		time.Sleep(20 * time.Millisecond)
		n.Party.Yield()
		n.Party.CheckAlive()
	}
	return nil
}

// round sends honest[j] (or honest[0]) to j, or bad(j) to those that are cheated.
func (d *dealer) round(k, no int, honest [][]byte, bad func(j int) []byte, check func(pid uint16, b []byte) error) error {
	n := d.g.W.N
	out := make([][]byte, n)
	for j := range out {
		h := honest[0]
		if len(honest) > 1 {
			h = honest[j]
		}
		out[j] = h
		if bad == nil || j == d.app.ID || (d.f.To >= 0 && j != d.f.To) {
			continue
		}
		if b := bad(j); b != nil && !bytes.Equal(b, h) {
			out[j] = b
			if cheats[d.f.Mode] == no {
				f := *d.f
				f.Off = no
				d.devs = append(d.devs, deviation{&f, b, []int{j}})
			}
			d.g.W.Count("fault.byzantine_" + d.f.Mode)
		}
	}
	return d.app.Node.Round(out, check)
}

func (d *dealer) gen(k int) error {
	d.v, d.rnd = Scalar(d.r), Scalar(d.r)
	d.eg = ref.Commit(d.g.W.H, d.v, d.rnd)
	if d.f.Mode == "copy" {
		if b := d.peer(d.victim()); b != nil {
			if e, _, err := ref.ParseEG(b); err == nil {
				d.eg = e
			}
		}
	}
	d.all = make([]ref.EG, d.g.W.N)
	d.all[d.app.ID] = d.eg
	return d.app.Node.Round([][]byte{ref.EncEG(d.eg)}, func(pid uint16, b []byte) error {
		e, _, err := ref.ParseEG(b)
		d.all[pid] = e
		return err
	})
}

// victim is the party whose messages are copied.
func (d *dealer) victim() int {
	n := d.g.W.N
	return (d.app.ID + 1 + d.f.N%(n-1)) % n
}

func (d *dealer) copy() error {
	for no := 0; no < 6; no++ {
		b := d.peer(d.victim())
		if b == nil {
			return errors.New("the copied party is gone")
		}
		if err := d.round(d.f.Call, no, [][]byte{nil}, func(j int) []byte {
			return b
		}, func(uint16, []byte) error { return nil }); err != nil {
			return err
		}
	}
	return nil
}

func (d *dealer) reshare(k, t int) error {
	w, id, n := d.g.W, d.app.ID, d.g.W.N
	h := w.H
	mode := "none"
	if d.f.Call == k {
		mode = d.f.Mode
	} else if d.f.Mode == "copy" {
		mode = "copy"
	}
	if mode == "copy" {
		return d.copy()
	}
	sent := map[int][]byte{}
	ok := func(uint16, []byte) error { return nil }
	x := d.honest(t)
	var y *dealing // what the cheated recipients see from step 4 on
	cheated := func(j int) bool { return j != id && (d.f.To < 0 || j == d.f.To) }
	delta := d.scalar()
	if d.f.N&1 == 1 {
		delta = big.NewInt(1)
	}
	a := new(big.Int).Add(big.NewInt(2), new(big.Int).SetInt64(int64(d.f.N>>1&1023)))

	// step 1
	sent[0] = d.know(d.eg, d.v, d.rnd)
	bad := map[string]func(j int) []byte{
		"know-value": func(int) []byte { return d.know(d.eg, modN(new(big.Int).Add(d.v, delta)), d.rnd) },
		"know-second": func(int) []byte {
			return d.know(d.eg, modN(new(big.Int).Sub(d.v, new(big.Int).Mul(delta, w.Eta))), modN(new(big.Int).Add(d.rnd, delta)))
		},
		"know-other": func(int) []byte { // heard in the previous resharing
			if rec := d.g.Rec(id, k-1, 0); rec != nil {
				return rec.Got[d.victim()]
			}
			return nil
		},
		"know-peer":   func(int) []byte { return d.peer(d.victim()) },
		"know-spoilt": func(int) []byte { return d.spoil(sent[0]) },
	}[mode]
	if err := d.round(k, 0, [][]byte{sent[0]}, bad, ok); err != nil {
		return err
	}

	// steps 2 to 5
	switch mode {
	case "coef0-value", "coef0-old-proof":
		s := d.scalar()
		v0 := modN(new(big.Int).Add(d.v, delta))
		r0 := modN(new(big.Int).Add(d.rnd, s))
		c0 := ref.Commit(h, v0, r0)
		y = d.deal(t, v0, r0, c0, nil)
		if mode == "coef0-value" || d.old == nil {
			y.refresh = d.proveRefresh(d.eg, c0, s)
		} else {
			y.refresh = d.old.refresh
		}
	case "coef0-scaled":
		s := d.scalar()
		c0 := ref.AddEG(ref.MulEG(d.eg, a), ref.Commit(h, new(big.Int), s))
		y = d.deal(t, modN(new(big.Int).Mul(a, d.v)), modN(new(big.Int).Add(s, new(big.Int).Mul(a, d.rnd))), c0, nil)
		y.refresh = d.scaledRefresh(d.eg, c0, a, s)
		if d.v.Sign() == 0 {
			y = nil // a refreshment after all
		}
	case "coef-know":
		y = d.honest(t)
		i := d.f.N % t
		y.know[i] = d.know(y.c[i], modN(new(big.Int).Add(y.f[i], delta)), y.rho[i])
	case "coef-unknown":
		y = d.honest(t)
		i := d.f.N % t
		c := ref.EG{First: ref.Base(d.scalar()), Second: ref.Base(d.scalar())}
		y.c[i] = c
		y.know[i] = d.know(c, y.f[i], y.rho[i])
	case "coef-swapped-proofs":
		y = d.honest(t)
		if t > 1 {
			y.know[0], y.know[t-1] = y.know[t-1], y.know[0]
		} else {
			y.know[0] = sent[0]
		}
	case "open-other", "equiv-poly":
		y = d.honest(t)
	case "open-proofs":
		y = &dealing{}
		*y = *x
		y.know = append([][]byte(nil), x.know...)
		i := d.f.N % t
		y.know[i] = d.know(x.c[i], x.f[i], x.rho[i])
	case "equiv-rand":
		s := d.scalar()
		c0 := ref.AddEG(d.eg, ref.Commit(h, new(big.Int), s))
		y = d.deal(t, d.v, modN(new(big.Int).Add(d.rnd, s)), c0, x.f)
		y.refresh = d.proveRefresh(d.eg, c0, s)
	case "equiv-same-evals":
		// another polynomial that agrees where the recipients can compare
		y = d.honest(t)
	}
	if y == nil {
		y = x
	}
	see := func(j int) *dealing {
		if cheated(j) {
			return y
		}
		return x
	}
	commitTo := make([][]byte, n)
	openTo := make([][]byte, n)
	for j := range commitTo {
		z := see(j)
		commitTo[j] = nmc(z.data(), z.zkp())
		openTo[j] = append(z.data(), z.zkp()...)
		if cheated(j) {
			switch mode {
			case "commit-spoilt":
				commitTo[j] = d.spoil(commitTo[j])
			case "open-other", "open-proofs":
				commitTo[j] = nmc(x.data(), x.zkp())
			case "open-nothing":
				// or to a part of what is opened, or to more
				full := commitTo[j]
				commitTo[j] = nmc(nil, nil)
				switch k := d.f.N % 8; k {
				case 1:
					commitTo[j] = nmc(x.data(), nil)
				case 2:
					commitTo[j] = nmc(nil, x.zkp())
				case 3, 4, 5, 6, 7:
					if b := commitOther([]string{"part", "rest", "more", "proof", "proof"}[k-3], full, d.f.N>>3); b != nil {
						commitTo[j] = b
					}
				}
			}
		}
	}
	var peerNMC []byte
	if mode == "open-peer" {
		if peerNMC = d.peer(d.victim()); len(peerNMC) < 8 {
			return errors.New("the copied party is gone")
		}
		for j := range commitTo {
			if cheated(j) {
				commitTo[j] = peerNMC
			}
		}
	}
	if err := d.round(k, 1, commitTo, nil, ok); err != nil {
		return err
	}
	bad = nil
	if cheats[mode] == 2 {
		bad = func(j int) []byte {
			switch mode {
			case "open-spoilt":
				return d.spoil(openTo[j])
			case "open-short":
				return openTo[j][:d.f.N%len(openTo[j])]
			case "open-peer":
				if d.f.N&1 == 1 {
					return peerNMC[8:] // the other party's values as well
				}
			}
			return append([]byte(nil), openTo[j]...)
		}
		if y == x && mode == "coef0-scaled" {
			bad = nil
		}
	}
	// what the others expect to see is not equal to what bad returns, whatever it is
	honest := append([][]byte(nil), openTo...)
	if bad != nil {
		for j := range honest {
			if cheated(j) {
				honest[j] = nil
			}
		}
	}
	if err := d.round(k, 2, honest, bad, ok); err != nil {
		return err
	}

	// step 7
	i := d.f.N % n // whose evaluation is wrong
	z := &dealing{}
	*z = *y
	z.l, z.lz, z.val, z.rnd = append([]ref.EG(nil), y.l...), append([][]byte(nil), y.lz...), append([]*big.Int(nil), y.val...), append([]*big.Int(nil), y.rnd...)
	switch mode {
	case "eval-value":
		s := d.scalar()
		z.val[i] = modN(new(big.Int).Add(y.val[i], delta))
		z.rnd[i] = modN(new(big.Int).Add(y.rnd[i], s))
		z.l[i] = ref.Commit(h, z.val[i], z.rnd[i])
		z.lz[i] = d.proveRefresh(y.e[i], z.l[i], s)
	case "eval-scaled":
		s := d.scalar()
		if y.val[i].Sign() == 0 {
			break
		}
		// the randomness of the unrefreshed commitment
		er := new(big.Int)
		for c := 0; c < t; c++ {
			er.Add(er, new(big.Int).Mul(y.rho[c], new(big.Int).Exp(big.NewInt(int64(i+1)), big.NewInt(int64(c)), nil)))
		}
		z.val[i] = modN(new(big.Int).Mul(a, y.val[i]))
		z.rnd[i] = modN(new(big.Int).Add(s, new(big.Int).Mul(a, er)))
		z.l[i] = ref.Commit(h, z.val[i], z.rnd[i])
		z.lz[i] = d.scaledRefresh(y.e[i], z.l[i], a, s)
	case "eval-swap":
		if t == 1 {
			break // all evaluations and their commitments are the same
		}
		o := (i + 1) % n
		z.l[i], z.l[o], z.lz[i], z.lz[o] = y.l[o], y.l[i], y.lz[o], y.lz[i]
		z.val[i], z.val[o], z.rnd[i], z.rnd[o] = y.val[o], y.val[i], y.rnd[o], y.rnd[i]
	case "eval-same":
		for o := range z.l {
			if t == 1 {
				break
			}
			z.l[o], z.lz[o], z.val[o], z.rnd[o] = y.l[i], y.lz[i], y.val[i], y.rnd[i]
		}
	case "equiv-same-evals":
		// the refreshed commitments shown to both groups are the same
		z.l, z.lz, z.val, z.rnd = append([]ref.EG(nil), x.l...), append([][]byte(nil), y.lz...), x.val, x.rnd
		for o := range z.lz {
			z.lz[o] = d.proveRefresh(y.e[o], x.l[o], d.scalar())
		}
	}
	evalTo := make([][]byte, n)
	for j := range evalTo {
		evalTo[j] = see(j).evals()
	}
	bad = nil
	switch mode {
	case "eval-value", "eval-scaled", "eval-swap", "eval-same", "equiv-same-evals":
		bad = func(int) []byte { return z.evals() }
	case "eval-old":
		bad = func(int) []byte {
			if d.old == nil {
				return nil
			}
			return d.old.evals()
		}
	case "eval-spoilt":
		bad = func(j int) []byte { return d.spoil(evalTo[j]) }
	case "eval-peer":
		bad = func(int) []byte { return d.peer(d.victim()) }
	}
	theirs := make([]ref.EG, n) // what they committed to for this party
	if err := d.round(k, 3, evalTo, bad, func(pid uint16, b []byte) error {
		for l := 0; l < n; l++ {
			e, rest, err := ref.ParseEG(b)
			if err != nil {
				return err
			}
			if l == id {
				theirs[pid] = e
			}
			b = rest
		}
		return nil
	}); err != nil {
		return err
	}

	// step 8
	shares := make([][]byte, n)
	for j := range shares {
		u := see(j)
		if bad != nil && cheated(j) {
			u = z
		}
		shares[j] = shareBytes(u.val[j], u.rnd[j])
	}
	bad = map[string]func(j int) []byte{
		"share-plus": func(j int) []byte { return shareBytes(modN(new(big.Int).Add(x.val[j], delta)), x.rnd[j]) },
		"share-rand": func(j int) []byte { return shareBytes(x.val[j], modN(new(big.Int).Add(x.rnd[j], delta))) },
		"share-second": func(j int) []byte {
			return shareBytes(modN(new(big.Int).Sub(x.val[j], new(big.Int).Mul(delta, w.Eta))), modN(new(big.Int).Add(x.rnd[j], delta)))
		},
		"share-other":  func(j int) []byte { return shares[(j+1+d.f.N%(n-1))%n] },
		"share-swap":   func(j int) []byte { return shareBytes(x.rnd[j], x.val[j]) },
		"share-zero":   func(j int) []byte { return shareBytes(new(big.Int), new(big.Int)) },
		"share-short":  func(j int) []byte { return shares[j][:d.f.N%len(shares[j])] },
		"share-empty":  func(j int) []byte { return []byte{} },
		"share-old":    func(j int) []byte { return d.lastTo[j] },
		"share-spoilt": func(j int) []byte { return d.spoil(shares[j]) },
		"share-peer":   func(j int) []byte { return d.peer(d.victim()) },
	}[mode]
	share, rnd := new(big.Int).Set(x.val[id]), new(big.Int).Set(x.rnd[id])
	sum := x.l[id]
	if err := d.round(k, 4, shares, bad, func(pid uint16, b []byte) error {
		if len(b) < 4 {
			return errors.New("short share")
		}
		l := int(b[0]) | int(b[1])<<8
		if len(b) < 4+l {
			return errors.New("short share")
		}
		share.Add(share, new(big.Int).SetBytes(b[4:4+l]))
		rnd.Add(rnd, new(big.Int).SetBytes(b[4+l:]))
		sum = ref.AddEG(sum, theirs[pid])
		return nil
	}); err != nil {
		return err
	}
	share, rnd = modN(share), modN(rnd)
	d.share = share

	// step 10
	s := d.scalar()
	fin := ref.AddEG(sum, ref.Commit(h, new(big.Int), s))
	lastFinal := d.last[5]
	sent[5] = append(d.proveRefresh(sum, fin, s), ref.EncEG(fin)...)
	bad = map[string]func(j int) []byte{
		"final-value": func(int) []byte {
			c := ref.AddEG(fin, ref.Commit(h, delta, new(big.Int)))
			return append(d.proveRefresh(sum, c, s), ref.EncEG(c)...)
		},
		"final-scaled": func(int) []byte {
			if share.Sign() == 0 {
				return nil
			}
			c := ref.AddEG(ref.MulEG(sum, a), ref.Commit(h, new(big.Int), s))
			return append(d.scaledRefresh(sum, c, a, s), ref.EncEG(c)...)
		},
		"final-first": func(int) []byte {
			c := fin
			c.First = ref.Add(c.First, ref.G)
			return append(d.proveRefresh(sum, c, s), ref.EncEG(c)...)
		},
		"final-old":    func(int) []byte { return lastFinal },
		"final-spoilt": func(int) []byte { return d.spoil(sent[5]) },
		"final-peer":   func(int) []byte { return d.peer(d.victim()) },
	}[mode]
	d.last, d.lastTo = sent, map[int][]byte{}
	for j := range shares {
		d.lastTo[j] = shares[j]
	}
	d.old = x
	return d.round(k, 5, [][]byte{sent[5]}, bad, ok)
}

func runDealer(e *Env) {
	p := e.Plan
	g := e.NewProgram(p)
	w := g.W
	var f *core.Fault
	for i := range p.Faults {
		if p.Faults[i].Kind == "byz" {
			f = &p.Faults[i]
		}
	}
	if f == nil {
		f = &core.Fault{Kind: "byz", From: 0, To: -1, Call: 1, Mode: "none"}
		p.Faults = append(p.Faults, *f)
	}
	for i := range g.Apps {
		if i != f.From {
			BiasRand(w, i, int(p.I["bias"]))
		}
	}
	d := &dealer{g: g, app: g.Apps[f.From], f: f, r: core.NewRand(p.Seed, 96)}
	w.Spawn(f.From, func(n *Node) {
		for k, op := range p.Ops {
			res := &OpRes{}
			run := func() error { return nil }
			switch op.Kind {
			case "gen":
				run = func() error { return d.gen(k) }
			case "reshare":
				run = func() error { return d.reshare(k, int(op.C)) }
			case "reveal":
				run = func() error {
					if d.share == nil {
						return errors.New("no share")
					}
					return d.round(k, 0, [][]byte{d.share.Bytes()}, nil, func(uint16, []byte) error { return nil })
				}
			}
			res.Call = n.Call(op.Kind, run)
			d.app.Res[k] = res
			if res.Call.Err != nil {
				break
			}
		}
		n.Call("stop", func() error { n.Stop(); return nil })
	})
	g.Run(func() {
		g.namesFailed("C11", "reshare")
		g.judge("C11", d.devs)
		g.checkDealt("C11", f.From, f.Mode)
		if f.Mode == "none" {
			w.Count("probe.dealer_honest")
		}
	}, f.From)
}

// checkDealt: when all honest parties completed a resharing, their shares fit together and
// make up what was committed to.
func (g *Program) checkDealt(prop string, dealer int, mode string) {
	w := g.W
	last := len(w.P.Ops) - 1
	op := w.P.Ops[last]
	re := -1
	for k, o := range w.P.Ops {
		if o.Kind == "reshare" && o.B == op.A {
			re = k
		}
	}
	if re < 0 || op.Kind != "reveal" {
		return
	}
	t := int(w.P.Ops[re].C)
	want := ref.O
	for i := range g.Apps {
		eg, ok := g.published(i, 0)
		if !ok {
			return
		}
		want = ref.Add(want, ref.Open(eg, w.Eta))
	}
	var xs []int64
	var ys []*big.Int
	for i := range g.Apps {
		if i == dealer {
			continue
		}
		rec := g.Rec(i, last, 0)
		if !g.OK(i, re) || rec == nil || len(rec.Sent) == 0 {
			return
		}
		xs, ys = append(xs, int64(i+1)), append(ys, new(big.Int).SetBytes(rec.Sent[0]))
	}
	if mode == "none" {
		rec := g.Rec(dealer, last, 0)
		if rec == nil {
			return
		}
		xs, ys = append(xs, int64(dealer+1)), append(ys, new(big.Int).SetBytes(rec.Sent[0]))
	}
	if len(xs) < t {
		return
	}
	w.E.Nontriv = true
	w.Count("probe.dealt_shares_checked")
	at := func(x int64) *big.Int {
		v := new(big.Int)
		for i := 0; i < t; i++ {
			v.Add(v, new(big.Int).Mul(ys[i], ref.Lagrange(xs[:t], i, x)))
		}
		return modN(v)
	}
	if !ref.Eq(ref.Base(at(0)), want) {
		w.Violate(prop+"/wrong-sum", "every honest party completed the resharing (operation %d, cheat %s of party %d), but their shares determine another value than the one committed to (n=%d t=%d)", re, mode, dealer, w.N, t)
		return
	}
	for i := t; i < len(xs); i++ {
		if at(xs[i]).Cmp(modN(ys[i])) != 0 {
			w.Violate(prop+"/inconsistent-shares", "every honest party completed the resharing (operation %d, cheat %s of party %d), but the share of party %d does not fit those of the others (n=%d t=%d)", re, mode, dealer, xs[i]-1, w.N, t)
		}
	}
}

func init() {
	register("C11", &Scenario{Name: "dealer", Weight: 1, Gen: genDealer, Run: runDealer})
}
