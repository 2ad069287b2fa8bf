package scen

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"math/rand/v2"
	"reflect"

	"aaa.verif/sim/core"
	"aaa.verif/sim/ref"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

// Key generation (C08) and the DH check (C15), with Byzantine openings.
//
// A fault of kind "byz" makes party From replace what it submits to round Off of operation
// Call (counted from 0) for recipient To (-1: everyone); Mode tells by what.

// deviation is one replaced payload.
type deviation struct {
	f    *core.Fault
	data []byte // what was sent instead
	to   []int  // who was cheated (nil: whoever got it)
}

// byzantine installs the plan's deviations; make computes the replacement of a payload
// (nil: behave).
func (g *Program) byzantine(make func(app *App, f *core.Fault, rec *Rec, honest []byte) []byte) *[]deviation {
	devs := &[]deviation{}
	cur := map[int]int{}
	before := g.Before
	g.Before = func(app *App, k int) {
		cur[app.ID] = k
		if before != nil {
			before(app, k)
		}
	}
	for i := range g.W.P.Faults {
		f := &g.W.P.Faults[i]
		if f.Kind != "byz" || f.From >= g.W.N {
			continue
		}
		app := g.Apps[f.From]
		prev := app.Corrupt
		app.Corrupt = func(n *Node, rec *Rec, toSend [][]byte) [][]byte {
			if prev != nil {
				toSend = prev(n, rec, toSend)
			}
			if cur[n.ID] != f.Call || rec.InCall != f.Off || f.To == n.ID {
				return toSend
			}
			out := append([][]byte(nil), toSend...)
			if f.To >= 0 && len(out) == 1 {
				out = nil
				for j := 0; j < g.W.N; j++ {
					out = append(out, toSend[0])
				}
			}
			for j := range out {
				if f.To >= 0 && j != f.To {
					continue
				}
				d := make(app, f, rec, out[j])
				if d == nil || bytes.Equal(d, out[j]) {
					continue
				}
				out[j] = d
				*devs = append(*devs, deviation{f: f, data: d})
				g.W.Count("fault.byzantine_" + f.Mode)
			}
			return out
		}
	}
	return devs
}

// judge: everyone who got a deviating payload must fail, naming the deviator.
func (g *Program) judge(prop string, devs []deviation) {
	for _, d := range devs {
		for i, app := range g.Apps {
			if i == d.f.From || g.isByz(i) || (d.to != nil && !contains(d.to, i)) {
				continue
			}
			rec := g.Rec(i, d.f.Call, d.f.Off)
			if rec == nil || !bytes.Equal(rec.Got[d.f.From], d.data) {
				continue
			}
			if len(rec.Got[d.f.From]) == 0 && rec.Checks[d.f.From] == 0 {
				continue
			}
			res := app.Res[d.f.Call]
			if res == nil || res.Call == nil || !res.Call.Done {
				continue
			}
			g.W.E.Nontriv = true
			g.W.Count("probe.deviation_judged")
			if res.Call.Err == nil {
				g.W.Violate(prop+"/deviation-accepted", "party %d operation %d (%s) succeeded although party %d deviated in its round %d (%s: sent %s)", i, d.f.Call, g.W.P.Ops[d.f.Call].Kind, d.f.From, d.f.Off, d.f.Mode, abbrev(d.data))
				continue
			}
			if miss, ok := Missing(res.Call.Err); !ok || !contains(miss, d.f.From) {
				g.W.Violate(prop+"/deviator-not-named", "party %d operation %d (%s): party %d deviated in its round %d (%s), the error names %v: %v", i, d.f.Call, g.W.P.Ops[d.f.Call].Kind, d.f.From, d.f.Off, d.f.Mode, miss, res.Call.Err)
			}
		}
	}
}

func (g *Program) isByz(i int) bool {
	for _, f := range g.W.P.Faults {
		if f.Kind == "byz" && f.From == i {
			return true
		}
	}
	return false
}

// namesFailed: when a round of the operation failed because of some parties, the
// operation's error names them.
func (g *Program) namesFailed(prop, kind string) {
	for k, op := range g.W.P.Ops {
		if op.Kind != kind {
			continue
		}
		for i, app := range g.Apps {
			r := app.Res[k]
			if r == nil || r.Call == nil || !r.Call.Done || r.Call.Err == nil || g.isByz(i) {
				continue
			}
			for j, rec := range r.Call.Recs {
				if rec.Err == nil || !rec.HasMiss || len(rec.Miss) == 0 {
					continue
				}
				if miss, ok := Missing(r.Call.Err); !ok || !sameInts(miss, rec.Miss) {
					g.W.Violate(prop+"/failed-party-not-named", "party %d operation %d (%s): round %d failed because of %v, the error of the operation names %v: %v", i, k, op.Kind, j, rec.Miss, miss, r.Call.Err)
				}
			}
		}
	}
}

// bigsIn finds the integers stored in a value.
func bigsIn(v reflect.Value, depth int, out *[]*big.Int) {
	if depth > 8 || len(*out) > 50 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if v.Type() == reflect.TypeOf((*big.Int)(nil)) {
			*out = append(*out, bigOf(v))
			return
		}
		bigsIn(v.Elem(), depth+1, out)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			bigsIn(v.Field(i), depth+1, out)
		}
	}
}

// pointOf reads the point at the beginning of a payload.
func pointOf(b []byte) (ref.Point, bool) {
	p, _, err := ref.Parse(b)
	return p, err == nil
}

// ---- C08 ----

func genKeygen(r *rand.Rand, p *core.Plan) {
	p.N = 2 + r.IntN(4)
	p.T = p.N
	p.I = map[string]int64{"bias": int64(pick(r, 0, 0, 3))}
	GenNetLight(r, p)
	m := 1 + r.IntN(2)
	for i := 0; i < m; i++ {
		p.Ops = append(p.Ops, core.Op{Kind: "keygen", A: int64(i)})
	}
	genDelays(r, p)
	switch r.IntN(6) {
	case 0:
		genCrash(r, p, r.IntN(p.N), 1, m, 10*p.N)
	case 1:
		a := r.IntN(p.N)
		p.Faults = append(p.Faults, core.Fault{Kind: "reset", From: a, To: (a + 1 + r.IntN(p.N-1)) % p.N, Off: 2 + r.IntN(200*m), Mode: pickS(r, "fin", "rst", "lost")})
	case 2, 3, 4:
		b := r.IntN(p.N)
		to := -1
		if r.IntN(2) == 0 {
			to = (b + 1 + r.IntN(p.N-1)) % p.N
		}
		f := core.Fault{Kind: "byz", From: b, To: to, Call: r.IntN(m), Off: 1, Mode: pickS(r, "random", "plusG", "neg", "other", "other", "stale", "neutral", "garbage", "flip", "empty", "trunc")}
		if r.IntN(5) == 0 {
			f.Off, f.Mode = 0, pickS(r, "random", "flip", "empty", "garbage", "stale", "nothing", "part", "rest", "more", "proof")
			f.N = r.IntN(1 << 16)
		}
		p.Faults = append(p.Faults, f)
		if r.IntN(6) == 0 {
			genCrash(r, p, (b+1)%p.N, 1, m, 10*p.N)
		}
	}
}

// otherPoint is a group element that depends on the run only.
func otherPoint(w *World) ref.Point {
	k := Wide(core.NewRand(w.P.Seed, 81), 32)
	return ref.Base(k.Mod(k, ref.N))
}

// mutate damages bytes.
func mutate(w *World, mode string, b []byte, from int) []byte {
	r := core.NewRand(w.P.Seed, 82, uint64(len(b)))
	switch mode {
	case "garbage":
		return Bytes(1+r.IntN(2*len(b)+20), w.P.Seed, 83)
	case "flip":
		if len(b) <= from {
			return nil
		}
		c := append([]byte(nil), b...)
		c[from+r.IntN(len(b)-from)] ^= 1 << r.IntN(8)
		return c
	case "empty":
		return []byte{}
	case "trunc":
		if len(b) == 0 {
			return nil
		}
		return append([]byte(nil), b[:r.IntN(len(b))]...)
	}
	return nil
}

func nmcBytes(data []byte) []byte {
	out := append(le32(uint32(len(data))), le32(0)...)
	return append(out, data...)
}

// commitOther makes a well-formed commitment that is not one to what will be opened: to
// nothing, to a part of it, or to more than it.
func commitOther(mode string, honest []byte, salt int) []byte {
	if len(honest) < 8 {
		return nil
	}
	a, b := int(binary.LittleEndian.Uint32(honest)), int(binary.LittleEndian.Uint32(honest[4:]))
	if 8+a+b != len(honest) || a < 2 {
		return nil
	}
	data, zkp := honest[8:8+a], honest[8+a:]
	switch mode {
	case "nothing":
		data, zkp = nil, nil
	case "part":
		data = data[:1+salt%(a-1)]
	case "rest":
		data = data[1+salt%(a-1):]
	case "more":
		data = append(append([]byte(nil), data...), Bytes(1+salt%40, uint64(salt))...)
	case "proof":
		if b > 0 && salt%2 == 0 {
			zkp = zkp[:salt%b]
		} else {
			zkp = append(append([]byte(nil), zkp...), Bytes(1+salt%40, uint64(salt))...)
		}
	}
	out := append(le32(uint32(len(data))), le32(uint32(len(zkp)))...)
	return append(append(out, data...), zkp...)
}

func (g *Program) devKeygen(app *App, f *core.Fault, rec *Rec, honest []byte) []byte {
	own := honest
	if f.Off == 0 {
		if len(honest) < 8 {
			return nil
		}
		own = honest[8:]
	}
	pt, ok := pointOf(own)
	if !ok {
		return nil
	}
	var q ref.Point
	switch f.Mode {
	case "random":
		q = otherPoint(g.W)
	case "plusG":
		q = ref.Add(pt, ref.G)
	case "neg":
		q = ref.Neg(pt)
	case "neutral":
		q = ref.O
	case "other":
		// what another party committed to (the commitments do not hide)
		prev := g.Rec(app.ID, f.Call, 0)
		j := (app.ID + 1) % g.W.N
		if prev == nil || len(prev.Got[j]) < 8 {
			return nil
		}
		if q, ok = pointOf(prev.Got[j][8:]); !ok {
			return nil
		}
	case "stale":
		if f.Call == 0 {
			return nil
		}
		prev := g.Rec(app.ID, f.Call-1, 1)
		if prev == nil || len(prev.Sent) == 0 {
			return nil
		}
		if q, ok = pointOf(prev.Sent[0]); !ok {
			return nil
		}
	case "flip":
		if f.Off == 0 {
			return mutate(g.W, f.Mode, honest, 8)
		}
		return mutate(g.W, f.Mode, honest, 0)
	case "nothing", "part", "rest", "more", "proof":
		return commitOther(f.Mode, honest, f.N)
	default:
		return mutate(g.W, f.Mode, honest, 0)
	}
	if ref.Eq(q, pt) {
		return nil
	}
	if f.Off == 0 {
		return nmcBytes(ref.Enc(q))
	}
	return ref.Enc(q)
}

func runKeygen(e *Env) {
	p := e.Plan
	g := e.NewProgram(p)
	w := g.W
	for i := range g.Apps {
		BiasRand(w, i, int(p.I["bias"]))
	}
	devs := g.byzantine(g.devKeygen)
	g.Run(func() {
		g.BadResults("C08")
		if !harmful(p) {
			g.MustSucceed("C08")
		}
		g.roundErrors("C08", "keygen")
		g.namesFailed("C08", "keygen")
		var judged []deviation
		for _, d := range *devs {
			if d.f.Off == 1 {
				judged = append(judged, d)
			} else {
				g.judgeCommit(d)
			}
		}
		g.judge("C08", judged)
		g.checkKeys("C08")
	})
}

// judgeCommit: a party that sent one recipient another commitment than the one it opens
// cannot satisfy that recipient.
func (g *Program) judgeCommit(d deviation) {
	for i, app := range g.Apps {
		if g.isByz(i) {
			continue
		}
		rec := g.Rec(i, d.f.Call, 0)
		res := app.Res[d.f.Call]
		if rec == nil || !bytes.Equal(rec.Got[d.f.From], d.data) || rec.Checks[d.f.From] == 0 || res == nil || res.Call == nil || !res.Call.Done {
			continue
		}
		g.W.E.Nontriv = true
		g.W.Count("probe.deviation_judged")
		if next := g.Rec(i, d.f.Call, 1); res.Call.Err != nil && rec.Rejected[d.f.From] == "" && (next == nil || next.Checks[d.f.From] == 0) {
			continue // failed for another reason before the opening arrived
		}
		if miss, ok := Missing(res.Call.Err); res.Call.Err == nil {
			g.W.Violate("C08/deviation-accepted", "party %d operation %d succeeded although party %d opened something other than it committed to", i, d.f.Call, d.f.From)
		} else if !ok || !contains(miss, d.f.From) {
			g.W.Violate("C08/deviator-not-named", "party %d operation %d: party %d opened something other than it committed to, the error names %v: %v", i, d.f.Call, d.f.From, miss, res.Call.Err)
		}
	}
}

// checkKeys: the keys of all parties that completed are the sum of the opened shares.
func (g *Program) checkKeys(prop string) {
	for k, op := range g.W.P.Ops {
		if op.Kind != "keygen" {
			continue
		}
		who := -1
		var key ref.Point
		for i, app := range g.Apps {
			res := app.Res[k]
			if g.isByz(i) || !g.OK(i, k) || !res.HasPt {
				continue
			}
			if who >= 0 && !ref.Eq(key, res.Pt) {
				g.W.Violate(prop+"/different-keys", "operation %d: parties %d and %d completed key generation with different keys", k, who, i)
			}
			who, key = i, res.Pt
			rec := g.Rec(i, k, 1)
			if rec == nil || len(rec.Sent) == 0 {
				g.W.Violate(prop+"/no-opening", "party %d operation %d completed key generation without opening its share", i, k)
				continue
			}
			own, ok := pointOf(rec.Sent[0])
			if !ok {
				g.W.Violate(prop+"/no-opening", "party %d operation %d published something that is not a share: %s", i, k, abbrev(rec.Sent[0]))
				continue
			}
			sum := own
			for j := range g.Apps {
				if j == i {
					continue
				}
				q, ok := pointOf(rec.Got[j])
				if !ok {
					g.W.Violate(prop+"/garbage-accepted", "party %d operation %d accepted from %d an opening that is not a group element: %s", i, k, j, abbrev(rec.Got[j]))
				}
				sum = ref.Add(sum, q)
			}
			if !ref.Eq(sum, res.Pt) {
				g.W.Violate(prop+"/wrong-key", "party %d operation %d: the public key is not the sum of the published shares", i, k)
			}
			var ints []*big.Int
			bigsIn(reflect.ValueOf(app.Key[op.A]), 0, &ints)
			match := len(ints) == 0
			for _, v := range ints {
				match = match || ref.Eq(ref.Base(new(big.Int).Mod(v, ref.N)), own)
			}
			if len(ints) > 0 {
				g.W.Count("probe.secret_share_compared")
			}
			if !match {
				g.W.Violate(prop+"/share-mismatch", "party %d operation %d: the secret share it keeps does not belong to the share it published", i, k)
			}
			g.W.E.Nontriv = true
			g.W.Count("probe.key_checked")
		}
	}
}

// runEquivocate: party 0 commits and opens consistently, but differently to each recipient.
func runEquivocate(e *Env) {
	g := e.NewProgram(e.Plan)
	w := g.W
	g.Apps[0].Corrupt = func(n *Node, rec *Rec, toSend [][]byte) [][]byte {
		var out [][]byte
		for j := 0; j < w.N; j++ {
			pt := ref.Enc(ref.Base(big.NewInt(int64(1000 + j))))
			if rec.InCall == 0 {
				pt = nmcBytes(pt)
			}
			out = append(out, pt)
		}
		return out
	}
	g.Run(func() {
		e.Nontriv = true
		a, b := g.Apps[1].Res[0], g.Apps[2].Res[0]
		if a != nil && b != nil && a.HasPt && b.HasPt && a.Call.Err == nil && b.Call.Err == nil && !ref.Eq(a.Pt, b.Pt) {
			w.Violate("C08/equivocation-splits-key", "party 0 committed and opened different shares to parties 1 and 2; both completed key generation, with different public keys")
		}
	})
}

// ---- C15 ----

// dhTriple computes the elements of triple b for key a; the low bits of b tell in what way
// it is false.
func (g *Program) dhTriple(a, b int64, app *App) (u, v ref.Point, truth bool) {
	k := g.dhExp(b / 16)
	x := new(big.Int)
	for _, s := range g.keyShares(a) {
		x.Add(x, s)
	}
	x.Mod(x, ref.N)
	u = ref.Base(k)
	v = ref.Mul(u, x)
	good := v
	switch b % 16 {
	case 1:
		v = ref.Add(v, ref.G)
	case 2:
		v = ref.Neg(v)
	case 3:
		v = ref.O
	case 4:
		v = otherPoint(g.W)
	case 5:
		v = u
	case 6:
		v = ref.Base(x)
	case 7:
		u = ref.Add(u, ref.G)
		good = ref.Mul(u, x)
	case 8:
		// as if one party were left out
		s := g.keyShares(a)
		v = ref.Sub(v, ref.Mul(u, s[int(b/16)%len(s)]))
	case 9:
		v = ref.Add(v, u)
	case 10:
		u = ref.O
		good = ref.O
	case 11:
		u = ref.Neg(u)
		good = ref.Neg(good)
	}
	return u, v, ref.Eq(v, good)
}

func (g *Program) keyShares(a int64) []*big.Int {
	r := core.NewRand(g.W.P.Seed, 52, uint64(a))
	var out []*big.Int
	for i := 0; i < g.W.N; i++ {
		out = append(out, Scalar(r))
	}
	return out
}

func genDH(r *rand.Rand, p *core.Plan) {
	p.N = 2 + r.IntN(4)
	p.T = p.N
	p.I = map[string]int64{}
	GenNetLight(r, p)
	p.Ops = []core.Op{{Kind: "mkkey", A: 0}}
	keys := 1
	if r.IntN(3) == 0 {
		p.Ops = append(p.Ops, core.Op{Kind: "mkkey", A: 1})
		keys = 2
	}
	first := len(p.Ops)
	m := 1 + r.IntN(3)
	faulty := r.IntN(2) == 0
	for i := 0; i < m; i++ {
		kind := 0
		if !faulty && r.IntN(2) == 0 {
			kind = 1 + r.IntN(11)
		}
		p.Ops = append(p.Ops, core.Op{Kind: "checkdh", A: int64(r.IntN(keys)), B: int64(16*i + kind)})
	}
	genDelays(r, p)
	if !faulty {
		return
	}
	p.I["bias"] = int64(pick(r, 0, 0, 3))
	switch r.IntN(5) {
	case 0:
		genCrash(r, p, r.IntN(p.N), first+1, first+m, 14*p.N)
	case 1:
		a := r.IntN(p.N)
		p.Faults = append(p.Faults, core.Fault{Kind: "reset", From: a, To: (a + 1 + r.IntN(p.N-1)) % p.N, Off: 2 + r.IntN(450*m), Mode: pickS(r, "fin", "rst", "lost")})
	default:
		b := r.IntN(p.N)
		to := -1
		if r.IntN(3) == 0 {
			to = (b + 1 + r.IntN(p.N-1)) % p.N
		}
		f := core.Fault{Kind: "byz", From: b, To: to, Call: first + r.IntN(m), Off: r.IntN(3), N: r.IntN(2)}
		switch f.Off {
		case 0:
			f.Mode = pickS(r, "random", "plusG", "flip", "stale", "nothing", "part", "rest", "more", "proof")
			f.N = r.IntN(1 << 16)
		case 1:
			f.Mode = pickS(r, "random", "plusG", "neg", "neutral", "other", "swap", "stale", "flip", "garbage", "empty", "trunc", "both")
		case 2:
			f.Mode = pickS(r, "random", "plusG", "neg", "neutral", "stale", "garbage", "empty", "trunc", "double")
		}
		p.Faults = append(p.Faults, f)
		if r.IntN(4) == 0 && f.Off > 0 && f.Call == first+m-1 {
			p.Ops[f.Call].B += int64(1 + r.IntN(9)) // a false triple on top
		}
	}
}

// devDH replaces a Byzantine party's payload in the DH check.
func (g *Program) devDH(app *App, f *core.Fault, rec *Rec, honest []byte) []byte {
	switch f.Mode {
	case "nothing", "part", "rest", "more", "proof":
		return commitOther(f.Mode, honest, f.N)
	case "garbage", "empty", "trunc":
		return mutate(g.W, f.Mode, honest, 0)
	case "flip":
		if f.Off == 0 {
			return mutate(g.W, f.Mode, honest, 8)
		}
		return mutate(g.W, f.Mode, honest, 0)
	case "stale":
		for k := f.Call - 1; k >= 0; k-- {
			if prev := g.Rec(app.ID, k, f.Off); prev != nil && len(prev.Sent) > 0 {
				return append([]byte(nil), prev.Sent[0]...)
			}
		}
		return nil
	}
	head := honest[:0]
	body := honest
	if f.Off == 0 {
		if len(honest) < 8 {
			return nil
		}
		head, body = honest[:8], honest[8:]
	}
	var pts []ref.Point
	for len(body) > 0 && len(pts) < 2 {
		q, rest, err := ref.Parse(body)
		if err != nil {
			return nil
		}
		pts, body = append(pts, q), rest
	}
	if len(pts) == 0 || (f.Off < 2 && len(pts) != 2) {
		return nil
	}
	if f.Mode == "swap" {
		pts[0], pts[1] = pts[1], pts[0]
	}
	for i := range pts {
		if i != f.N%len(pts) && f.Mode != "both" {
			continue
		}
		switch f.Mode {
		case "random":
			pts[i] = otherPoint(g.W)
		case "plusG", "both":
			pts[i] = ref.Add(pts[i], ref.G)
		case "neg":
			pts[i] = ref.Neg(pts[i])
		case "double":
			pts[i] = ref.Add(pts[i], pts[i])
		case "neutral":
			pts[i] = ref.O
		case "other":
			prev := g.Rec(app.ID, f.Call, 0)
			j := (app.ID + 1) % g.W.N
			if prev == nil || len(prev.Got[j]) < 8 {
				return nil
			}
			a, rest, err := ref.Parse(prev.Got[j][8:])
			if err != nil {
				return nil
			}
			b, _, err := ref.Parse(rest)
			if err != nil {
				return nil
			}
			pts[0], pts[1] = b, a // committed as (test, verify), opened as (verify, test)
		}
	}
	var out []byte
	for _, q := range pts {
		out = append(out, ref.Enc(q)...)
	}
	if f.Off == 0 {
		return nmcBytes(out)
	}
	_ = head
	return append(out, body...)
}

func runDH(e *Env) {
	p := e.Plan
	g := e.NewProgram(p)
	w := g.W
	bias := int(p.I["bias"])
	for _, op := range p.Ops {
		if op.Kind == "checkdh" && op.B%16 != 0 {
			bias = 0 // blinding by zeros hides that a triple is false
		}
	}
	for i := range g.Apps {
		BiasRand(w, i, bias)
	}
	g.Tolerate["checkdh"] = !harmful(p)
	g.DH = func(a, b int64, app *App) (curve.Point, curve.Point) {
		u, v, _ := g.dhTriple(a, b, app)
		return ToCurve(u), ToCurve(v)
	}
	devs := g.byzantine(g.devDH)
	g.Run(func() {
		g.roundErrors("C15", "checkdh")
		byzAt := len(p.Ops)
		for _, d := range *devs {
			byzAt = min(byzAt, d.f.Call)
		}
		for k, op := range p.Ops {
			if op.Kind != "checkdh" {
				continue
			}
			_, _, truth := g.dhTriple(op.A, op.B, nil)
			for i, app := range g.Apps {
				r := app.Res[k]
				if r == nil || r.Call == nil || !r.Call.Done || g.isByz(i) {
					continue
				}
				if !truth && r.Call.Err == nil {
					w.Violate("C15/false-triple-accepted", "party %d operation %d: the DH check accepted a false triple (kind %d)", i, k, op.B%16)
				}
				if truth && r.Call.Err != nil && k < byzAt {
					failed := false
					for _, rec := range r.Call.Recs {
						failed = failed || rec.Err != nil
					}
					if !failed {
						w.Violate("C15/true-triple-rejected", "party %d operation %d: the DH check rejected a true triple: %v", i, k, r.Call.Err)
					}
				}
				w.Count(fmt.Sprintf("probe.triple_%v_checked", truth))
				e.Nontriv = true
			}
		}
		if !harmful(p) {
			for i, app := range g.Apps {
				for k := range p.Ops {
					if r := app.Res[k]; (r == nil || r.Call == nil || !r.Call.Done) && !w.Hung {
						w.Violate("C15/incomplete", "party %d never completed operation %d", i, k)
					}
				}
			}
		}
		for _, d := range *devs {
			for i, app := range g.Apps {
				if g.isByz(i) {
					continue
				}
				r := app.Res[d.f.Call]
				rec := g.Rec(i, d.f.Call, d.f.Off)
				if r == nil || r.Call == nil || !r.Call.Done || rec == nil || rec.Checks[d.f.From] == 0 || !bytes.Equal(rec.Got[d.f.From], d.data) {
					continue
				}
				w.Count("probe.deviation_judged")
				if r.Call.Err == nil {
					w.Violate("C15/deviation-accepted", "party %d operation %d: the DH check succeeded although party %d deviated in round %d (%s)", i, d.f.Call, d.f.From, d.f.Off, d.f.Mode)
				}
			}
		}
	})
}

// runRushing: party 0 waits for the others' values in the last round and chooses its own so
// that a false triple passes.
func runRushing(e *Env) {
	p := e.Plan
	g := e.NewProgram(p)
	w := g.W
	g.DH = func(a, b int64, app *App) (curve.Point, curve.Point) {
		u, v, _ := g.dhTriple(a, b, app)
		return ToCurve(u), ToCurve(v)
	}
	g.Apps[0].Corrupt = func(n *Node, rec *Rec, toSend [][]byte) [][]byte {
		if rec.InCall != 2 {
			return toSend
		}
		opening := n.Recs[rec.Index-1]
		sum, ok := pointOf(opening.Sent[0])
		for j := 1; j < w.N; j++ {
			q, ok2 := pointOf(opening.Got[j])
			ok = ok && ok2
			sum = ref.Add(sum, q)
		}
		for j := 1; j < w.N && ok; j++ {
			for found := false; !found; n.Party.Yield() {
				n.Party.CheckAlive()
				w.Locked(func() {
					for _, f := range w.Tape {
						if f.From == j && f.To == 0 && f.Round == int64(rec.Index) {
							if q, ok2 := pointOf(f.Payload); ok2 {
								sum = ref.Sub(sum, q)
							}
							found = true
							break
						}
					}
				})
			}
		}
		w.Count("fault.byzantine_rushing")
		return [][]byte{ref.Enc(sum)}
	}
	g.Run(func() {
		e.Nontriv = true
		for i := 1; i < w.N; i++ {
			if g.OK(i, 1) {
				w.Violate("C15/rushing-party-forges", "party %d accepted a false triple: party 0 chose the value it published last so that the values add up", i)
				break
			}
		}
	})
}

// mkKey gives every party a key made from shares the run determines.
func (g *Program) mkKey(app *App, a int64) {
	sh := g.keyShares(a)
	var pts []curve.Point
	for _, s := range sh {
		pts = append(pts, ToCurve(ref.Base(s)))
	}
	app.Key[a] = arith.NewDKey(arith.NewDSecret(uint16(app.ID), "k", new(big.Int).Set(sh[app.ID]), app.Node), pts, g.Grp)
}

func init() {
	register("C08", &Scenario{Name: "keygen", Weight: 1, Gen: genKeygen, Run: runKeygen})
	register("C08", &Scenario{Name: "equivocation", Run: runEquivocate, Directed: func() []*core.Plan {
		return []*core.Plan{{N: 3, T: 3, Net: core.Net{BufCap: 4096}, Ops: []core.Op{{Kind: "keygen", A: 0}}}}
	}})
	register("C15", &Scenario{Name: "checkdh", Weight: 1, Gen: genDH, Run: runDH})
	register("C15", &Scenario{Name: "rushing", Run: runRushing, Directed: func() []*core.Plan {
		return []*core.Plan{{N: 3, T: 3, Net: core.Net{BufCap: 4096}, Ops: []core.Op{{Kind: "mkkey", A: 0}, {Kind: "checkdh", A: 0, B: 1}}}}
	}})
}
