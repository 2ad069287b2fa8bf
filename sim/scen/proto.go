package scen

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand/v2"
	"reflect"
	"strings"

	"aaa.verif/sim/core"
	"aaa.verif/sim/ref"
	"github.com/binance-chain/tss-lib/crypto/paillier"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/tecdsa"
)

// Protocol programs. Every party runs the same list of operations; each is one API call.
//
//	gen A            additive secret A
//	reshare A B C    threshold secret B := reshare of additive secret A with threshold C
//	reveal A         reveal threshold secret A
//	exp A            public key of threshold secret A
//	lin A B C D      threshold secret A := coefficient pair D applied to B and C
//	mult A B C       additive secret A := B * C
//	keygen A         distributed key A
//	checkdh A B      DH check against key A with triple number B
//	init             tecdsa.Init
//	presign A        Presign(A)
//	sign A           Sign(message A)
//
// Local operations (lin) take part in the numbering of calls.

// App is the protocol state of one party.
type App struct {
	*Node
	AD    map[int64]*arith.ADSecret
	TD    map[int64]*arith.TDSecret
	Key   map[int64]*arith.DKey
	Proto *tecdsa.Protocol
	Res   map[int]*OpRes
}

// OpRes is the outcome of one operation at one party.
type OpRes struct {
	Call    *CallRec
	Skipped bool
	Val     *big.Int
	HasVal  bool
	Pt      ref.Point
	HasPt   bool
	R, S    *big.Int
	HasSig  bool
	BadVal  string // result returned that cannot be a result
}

// Program is a run of a list of operations.
type Program struct {
	W    *World
	Apps []*App
	Egf  []*commitment.ElGamalFactory
	Grp  curve.Group

	// Continue: a party goes on with the next operation after an error, each operation on
	// connections of its own. Otherwise it disconnects at the first error.
	Continue bool
	// Tolerate: operations whose failure does not end the program.
	Tolerate map[string]bool
	// NoStop: parties do not disconnect at the end.
	Coef  func(d int64) (alpha, beta *big.Int)
	Msg   func(a int64) *big.Int
	DH    func(a, b int64, app *App) (u, v curve.Point)
	Pail  *Paillier
	Alive func(i int) bool
	// Before is called at party i before an operation.
	Before func(app *App, k int)
	// Skip tells that a party does not take part in an operation.
	Skip func(app *App, k int) bool
}

// Paillier holds the keys of all parties.
type Paillier struct {
	Priv []*paillier.PrivateKey
	Pub  []*paillier.PublicKey
}

// NewProgram prepares a world running p.Ops.
func (e *Env) NewProgram(p *core.Plan) *Program {
	w := e.NewWorld(p)
	g := &Program{W: w, Grp: curve.NewSecp256k1Group(), Tolerate: map[string]bool{"reveal": true, "exp": true}}
	for i := 0; i < w.N; i++ {
		g.Apps = append(g.Apps, &App{Node: w.Nodes[i], AD: map[int64]*arith.ADSecret{}, TD: map[int64]*arith.TDSecret{}, Key: map[int64]*arith.DKey{}, Res: map[int]*OpRes{}})
		g.Egf = append(g.Egf, w.Egf())
	}
	g.Coef = func(d int64) (*big.Int, *big.Int) { return Coefs(p.Seed, d) }
	g.Msg = func(a int64) *big.Int { return Scalar(core.NewRand(p.Seed, 31, uint64(a))) }
	return g
}

// Coefs is the d-th pair of coefficients of a run.
func Coefs(seed uint64, d int64) (*big.Int, *big.Int) {
	r := core.NewRand(seed, 21, uint64(d))
	one := func() *big.Int {
		switch r.IntN(10) {
		case 0:
			return new(big.Int).Add(ref.N, big.NewInt(int64(r.IntN(5))))
		case 1:
			return new(big.Int).Neg(Scalar(r))
		case 2:
			return Wide(r, 64)
		}
		return Scalar(r)
	}
	a, b := one(), one()
	if r.IntN(4) == 0 {
		switch r.IntN(3) {
		case 0:
			b = new(big.Int).Set(a)
		case 1:
			b = new(big.Int).Neg(a)
		case 2:
			a, b = big.NewInt(int64(r.IntN(2))), big.NewInt(int64(r.IntN(2)))
		}
	}
	return a, b
}

// Run executes the program at every party not in skip and calls check at the end.
func (g *Program) Run(check func(), skip ...int) {
	for i := range g.Apps {
		if contains(skip, i) {
			continue
		}
		app := g.Apps[i]
		g.W.Spawn(i, func(n *Node) { g.exec(app) })
	}
	g.W.Finish(check)
}

func (g *Program) exec(app *App) {
	for k, op := range g.W.P.Ops {
		if g.Continue && k > 0 {
			app.Party.CheckAlive()
			app.Node.NextEpoch(k)
		}
		if g.Before != nil {
			g.Before(app, k)
		}
		res := &OpRes{Skipped: true}
		if g.Skip == nil || !g.Skip(app, k) {
			res = g.one(app, k, op)
		}
		app.Res[k] = res
		if res.Call != nil && res.Call.Err != nil && !g.Continue && !g.Tolerate[op.Kind] {
			break
		}
	}
	app.Node.Call("stop", func() error { app.Node.Stop(); return nil })
}

// dhExp is the exponent of triple b.
func (g *Program) dhExp(b int64) *big.Int {
	return Scalar(core.NewRand(g.W.P.Seed, 51, uint64(b)))
}

// trueTriple is the first and third element of a DH triple for key a.
func (g *Program) trueTriple(a, b int64, app *App) (u, v curve.Point) {
	k := g.dhExp(b)
	pk, err := FromCurve(app.Key[a].PublicKey())
	if err != nil {
		panic("harness: public key: " + err.Error())
	}
	return ToCurve(ref.Base(k)), ToCurve(ref.Mul(pk, k))
}

func (g *Program) pt(app *App, p curve.Point, res *OpRes, what string) {
	q, err := FromCurve(p)
	if err != nil {
		res.BadVal = fmt.Sprintf("%s is not a group element: %v", what, err)
		return
	}
	res.Pt, res.HasPt = q, true
}

func (g *Program) one(app *App, k int, op core.Op) *OpRes {
	res := &OpRes{}
	w := g.W
	id, n := uint16(app.ID), uint16(w.N)
	call := func(name string, f func() error) { res.Call = app.Node.Call(name, f) }
	switch op.Kind {
	case "gen":
		call("gen", func() error {
			s, err := arith.Gen(fmt.Sprint("s", op.A), app.Node, g.Egf[app.ID], id, n)
			if err == nil {
				app.AD[op.A] = s
				if s == nil {
					res.BadVal = "no secret and no error"
				}
			} else if s != nil {
				res.BadVal = "a secret together with an error"
			}
			return err
		})
	case "reshare", "treshare":
		s := app.AD[op.A]
		if op.Kind == "treshare" {
			s = nil
			if t := app.TD[op.A]; t != nil {
				s = &t.ADSecret
			}
		}
		if s == nil {
			return &OpRes{Skipped: true}
		}
		call("reshare", func() error {
			t, err := s.Reshare(uint16(op.C))
			if err == nil {
				app.TD[op.B] = t
				if t == nil {
					res.BadVal = "no secret and no error"
				}
			} else if t != nil {
				res.BadVal = "a secret together with an error"
			}
			return err
		})
	case "reveal":
		s := app.TD[op.A]
		if s == nil {
			return &OpRes{Skipped: true}
		}
		call("reveal", func() error {
			v, err := s.Reveal()
			if v != nil {
				res.Val, res.HasVal = new(big.Int).Set(v), true
			}
			return err
		})
	case "exp":
		s := app.TD[op.A]
		if s == nil {
			return &OpRes{Skipped: true}
		}
		call("exp", func() error {
			t, err := s.Exp()
			if err == nil {
				if t == nil {
					res.BadVal = "no key and no error"
				} else {
					g.pt(app, t.PublicKey(), res, "the public key")
				}
			}
			return err
		})
	case "lin":
		a, b := app.TD[op.B], app.TD[op.C]
		if a == nil || b == nil {
			return &OpRes{Skipped: true}
		}
		call("lin", func() error {
			al, be := g.Coef(op.D)
			al2, be2 := new(big.Int).Set(al), new(big.Int).Set(be)
			app.TD[op.A] = arith.Lin(al, be, a, b, "c")
			if al.Cmp(al2) != 0 || be.Cmp(be2) != 0 {
				res.BadVal = "the coefficients passed to Lin were modified"
			}
			return nil
		})
	case "mult":
		a, b := app.AD[op.B], app.AD[op.C]
		if a == nil || b == nil {
			return &OpRes{Skipped: true}
		}
		call("mult", func() error {
			c, err := arith.Mult(a, b, "c", g.Pail.Priv[app.ID], g.Pail.Pub[app.ID], g.Pail.Pub)
			if err == nil {
				app.AD[op.A] = c
				if c == nil {
					res.BadVal = "no product and no error"
				}
			} else if c != nil {
				res.BadVal = "a product together with an error"
			}
			return err
		})
	case "keygen":
		call("keygen", func() error {
			key, err := arith.GenExpReveal(id, fmt.Sprint("k", op.A), app.Node, n, g.Grp)
			if err == nil {
				app.Key[op.A] = key
				if key == nil {
					res.BadVal = "no key and no error"
				} else {
					g.pt(app, key.PublicKey(), res, "the public key")
				}
			} else if key != nil {
				res.BadVal = "a key together with an error"
			}
			return err
		})
	case "mkkey":
		call("mkkey", func() error { g.mkKey(app, op.A); return nil })
	case "checkdh":
		key := app.Key[op.A]
		if key == nil {
			return &OpRes{Skipped: true}
		}
		call("checkdh", func() error {
			u, v := g.DH(op.A, op.B, app)
			return arith.CheckDH(u, v, g.Grp, key)
		})
	case "init":
		call("init", func() error {
			p, err := tecdsa.Init(id, n, app.Node)
			if err == nil {
				app.Proto = p
				if p == nil {
					res.BadVal = "no protocol and no error"
				}
			} else if p != nil {
				res.BadVal = "a protocol together with an error"
			}
			return err
		})
	case "presign":
		if app.Proto == nil {
			return &OpRes{Skipped: true}
		}
		call("presign", func() error { return app.Proto.Presign(uint16(op.A)) })
	case "sign":
		if app.Proto == nil {
			return &OpRes{Skipped: true}
		}
		call("sign", func() error {
			m := g.Msg(op.A)
			m2 := new(big.Int).Set(m)
			sig, err := app.Proto.Sign(m)
			if m.Cmp(m2) != 0 {
				res.BadVal = "the message passed to Sign was modified"
			}
			if sig != nil {
				if r, s, ok := sigParts(sig); ok {
					res.R, res.S, res.HasSig = r, s, true
				} else {
					res.BadVal = "signature components missing"
				}
			}
			if err == nil && sig == nil {
				res.BadVal = "no signature and no error"
			}
			return err
		})
	default:
		panic("harness: operation " + op.Kind)
	}
	return res
}

// sigParts reads the two components of a signature (it has no accessors).
func sigParts(sig *tecdsa.Signature) (r, s *big.Int, ok bool) {
	v := reflect.ValueOf(sig).Elem()
	var out []*big.Int
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == reflect.TypeOf((*big.Int)(nil)) {
			if f.IsNil() {
				return nil, nil, false
			}
			out = append(out, bigOf(f))
		}
	}
	if len(out) < 2 {
		return nil, nil, false
	}
	return out[0], out[1], true
}

func bigOf(f reflect.Value) *big.Int {
	e := f.Elem() // big.Int{neg bool, abs nat}
	neg := e.Field(0).Bool()
	abs := e.Field(1)
	v := new(big.Int)
	for i := abs.Len() - 1; i >= 0; i-- {
		v.Lsh(v, 64).Or(v, new(big.Int).SetUint64(abs.Index(i).Uint()))
	}
	if neg {
		v.Neg(v)
	}
	return v
}

// Rec returns the j-th round of operation k at party i, or nil.
func (g *Program) Rec(i, k, j int) *Rec {
	res := g.Apps[i].Res[k]
	var c *CallRec
	if res != nil {
		c = res.Call
	} else {
		// the party died or still is in the call: find it by position
		c = g.callAt(i, k)
	}
	if c == nil || j >= len(c.Recs) {
		return nil
	}
	return c.Recs[j]
}

func (g *Program) callAt(i, k int) *CallRec {
	// operations before k that were not skipped
	n := 0
	for j := 0; j < k; j++ {
		if r := g.Apps[i].Res[j]; r == nil {
			return nil
		} else if r.Call != nil {
			n++
		}
	}
	if n < len(g.Apps[i].Calls) {
		return g.Apps[i].Calls[n]
	}
	return nil
}

// OK tells whether operation k succeeded at party i.
func (g *Program) OK(i, k int) bool {
	r := g.Apps[i].Res[k]
	return r != nil && r.Call != nil && r.Call.Done && r.Call.Err == nil
}

// Opening parses the commitment a party published in the first round of a gen operation.
func (g *Program) published(i, k int) (ref.EG, bool) {
	rec := g.Rec(i, k, 0)
	if rec == nil || len(rec.Sent) == 0 {
		return ref.EG{}, false
	}
	eg, _, err := ref.ParseEG(rec.Sent[0])
	return eg, err == nil
}

// Model is what the recorded history says the secrets are.
type Model struct {
	AD map[int64]ref.Point // value times G
	// ADShare is each party's committed additive share times G.
	ADShare map[int64][]ref.Point
	TD      map[int64]ref.Point
	T       map[int64]int
	At      map[int]map[int64]ref.Point // before operation k: TD (only for reveal/exp ops)
	ThrAt   map[int]int
	Val     map[int]ref.Point
}

// Model computes the expected values of a program in which nobody deviates.
func (g *Program) Model() *Model {
	m := &Model{AD: map[int64]ref.Point{}, ADShare: map[int64][]ref.Point{}, TD: map[int64]ref.Point{}, T: map[int64]int{}, ThrAt: map[int]int{}, Val: map[int]ref.Point{}}
	eta := g.W.Eta
	for k, op := range g.W.P.Ops {
		switch op.Kind {
		case "gen":
			var sum ref.Point = ref.O
			var sh []ref.Point
			ok := true
			for i := range g.Apps {
				eg, got := g.published(i, k)
				if !got {
					ok = false
					break
				}
				v := ref.Open(eg, eta)
				sh = append(sh, v)
				sum = ref.Add(sum, v)
			}
			delete(m.AD, op.A)
			if ok {
				m.AD[op.A], m.ADShare[op.A] = sum, sh
			}
		case "reshare":
			delete(m.TD, op.B)
			if v, ok := m.AD[op.A]; ok {
				m.TD[op.B], m.T[op.B] = v, int(op.C)
			}
		case "lin":
			a, ok1 := m.TD[op.B]
			b, ok2 := m.TD[op.C]
			if ok1 && ok2 {
				al, be := g.Coef(op.D)
				al, be = new(big.Int).Mod(al, ref.N), new(big.Int).Mod(be, ref.N)
				m.TD[op.A] = ref.Add(ref.Mul(a, al), ref.Mul(b, be))
				m.T[op.A] = max(m.T[op.B], m.T[op.C])
			}
		case "reveal", "exp":
			if v, ok := m.TD[op.A]; ok {
				m.Val[k], m.ThrAt[k] = v, m.T[op.A]
			}
		}
	}
	return m
}

// BadResults reports results that are never acceptable.
func (g *Program) BadResults(prop string) {
	for i, app := range g.Apps {
		for k := range g.W.P.Ops {
			if r := app.Res[k]; r != nil && r.Call != nil && r.Call.Done && r.BadVal != "" {
				g.W.Violate(prop+"/bad-result", "party %d operation %d (%s): %s", i, k, g.W.P.Ops[k].Kind, r.BadVal)
			}
		}
	}
}

// CheckReveals compares every reveal and exp with the model: with at least t shares at
// hand the result is right, with fewer there is an error.
func (g *Program) CheckReveals(prop string, m *Model, kinds ...string) {
	for k, op := range g.W.P.Ops {
		found := false
		for _, kd := range kinds {
			found = found || kd == op.Kind
		}
		if !found {
			continue
		}
		for i, app := range g.Apps {
			res := app.Res[k]
			if res == nil || res.Skipped || !res.Call.Done {
				continue
			}
			want, ok := m.Val[k]
			if !ok {
				g.W.Violate(prop+"/value-without-secret", "party %d operation %d (%s) ran on a secret that cannot exist", i, k, op.Kind)
				continue
			}
			rec := g.Rec(i, k, 0)
			if rec == nil {
				if res.Call.Err == nil {
					g.W.Violate(prop+"/result-without-round", "party %d operation %d (%s) returned without communicating", i, k, op.Kind)
				}
				continue
			}
			have := rec.Good() + 1
			t := m.ThrAt[k]
			if have < t {
				if res.Call.Err == nil {
					g.W.Violate(prop+"/too-few-shares", "party %d operation %d: %s returned a result with %d shares, threshold %d", i, k, op.Kind, have, t)
				}
				g.W.Count("probe.below_threshold")
				continue
			}
			if res.Call.Err != nil {
				g.W.Violate(prop+"/fails-with-enough-shares", "party %d operation %d: %s failed with %d shares, threshold %d: %v", i, k, op.Kind, have, t, res.Call.Err)
				continue
			}
			if have < g.W.N {
				g.W.Count("probe.result_with_missing_parties")
			}
			g.W.E.Nontriv = true
			switch op.Kind {
			case "reveal":
				if !res.HasVal {
					g.W.Violate(prop+"/no-value", "party %d operation %d: reveal returned neither value nor error", i, k)
				} else if res.Val.Sign() < 0 || res.Val.Cmp(ref.N) >= 0 {
					g.W.Violate(prop+"/unreduced-value", "party %d operation %d: revealed value %x is not below the group order", i, k, res.Val)
				} else if !ref.Eq(ref.Base(res.Val), want) {
					g.W.Violate(prop+"/wrong-value", "party %d operation %d: revealed %x, which is not what was shared (n=%d t=%d, %d shares)", i, k, res.Val, g.W.N, t, have)
				}
			case "exp":
				if !res.HasPt {
					continue
				}
				if !ref.Eq(res.Pt, want) {
					g.W.Violate(prop+"/wrong-key", "party %d operation %d: the public key does not belong to the shared secret (n=%d t=%d, %d shares)", i, k, g.W.N, t, have)
				}
			}
		}
	}
}

// MustSucceed is for runs without faults: every operation succeeds.
func (g *Program) MustSucceed(prop string) {
	for _, op := range g.W.P.Ops {
		if strings.HasSuffix(op.Kind, "reshare") && (op.C < 1 || op.C > int64(g.W.N)) {
			return // a threshold nobody can ask for (minimised plans)
		}
	}
	for i, app := range g.Apps {
		for k, op := range g.W.P.Ops {
			r := app.Res[k]
			if r == nil || r.Skipped || !r.Call.Done {
				if !g.W.Hung {
					g.W.Violate(prop+"/incomplete", "party %d never completed operation %d (%s) although nothing failed", i, k, op.Kind)
				}
				return
			}
			if r.Call.Err != nil {
				g.W.Violate(prop+"/fails-without-cause", "party %d operation %d (%s) failed although nothing failed: %v", i, k, op.Kind, r.Call.Err)
				return
			}
		}
	}
}

// harmful tells whether the plan contains a fault that may make operations fail.
func harmful(p *core.Plan) bool {
	for _, f := range p.Faults {
		switch f.Kind {
		case "stall", "dialfail", "listenfail":
		default:
			return true
		}
	}
	return false
}

// genDelays adds finite delays and start-up hiccups.
func genDelays(r *rand.Rand, p *core.Plan) {
	for i, m := 0, r.IntN(3); i < m && p.N > 1; i++ {
		a := r.IntN(p.N)
		b := (a + 1 + r.IntN(p.N-1)) % p.N
		p.Faults = append(p.Faults, core.Fault{Kind: "stall", From: a, To: b, Off: r.IntN(3000), Dur: int64(pick(r, 1, 50, 5000)) * 1000000})
	}
}

// genCrash adds a crash of party v in one of the calls [lo,hi].
func genCrash(r *rand.Rand, p *core.Plan, v, lo, hi, ops int) {
	p.Faults = append(p.Faults, core.Fault{Kind: "crash", From: v, Call: lo + r.IntN(hi-lo+1), Ops: r.IntN(ops), Mode: []string{"fin", "rst", "lost"}[r.IntN(3)]})
}

var _ = bytes.Equal
