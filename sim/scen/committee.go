package scen

import (
	"errors"
	"math/big"

	"aaa.verif/sim/core"
	"aaa.verif/sim/ref"
)

// Large committees (C09, C10): so many parties that their numbers, the powers and the
// products of them do not fit into machine words. All parties but one (I["me"]) are played
// by the harness; they are honest, but all draw the same randomness, so that their messages
// need to be computed only once. Some of them (fault "leave": From, Call) disconnect before
// an operation.

type flock struct {
	*dealer
	x      *dealing
	know   []byte
	me     int
	theirs ref.EG
}

func (f *flock) op(g *Program, n *Node, k int, op core.Op, st *stand) error {
	w := g.W
	ok := func(uint16, []byte) error { return nil }
	switch op.Kind {
	case "gen":
		return n.Round([][]byte{ref.EncEG(f.eg)}, ok)
	case "reshare":
		if f.x == nil {
			f.know = f.dealer.know(f.eg, f.v, f.rnd)
			f.x = f.honest(int(op.C))
		}
		x := f.x
		if err := n.Round([][]byte{f.know}, ok); err != nil {
			return err
		}
		if err := n.Round([][]byte{nmc(x.data(), x.zkp())}, ok); err != nil {
			return err
		}
		if err := n.Round([][]byte{append(x.data(), x.zkp()...)}, ok); err != nil {
			return err
		}
		var theirs ref.EG // commitment of the real party to what it sends this one
		if err := n.Round([][]byte{x.evals()}, func(pid uint16, b []byte) error {
			if int(pid) != f.me {
				return nil
			}
			for l := 0; l <= n.ID; l++ {
				e, rest, err := ref.ParseEG(b)
				if err != nil {
					return err
				}
				theirs, b = e, rest
			}
			return nil
		}); err != nil {
			return err
		}
		shares := make([][]byte, w.N)
		for j := range shares {
			shares[j] = shareBytes(x.val[j], x.rnd[j])
		}
		others := big.NewInt(int64(w.N - 1))
		share, rnd := new(big.Int).Mul(others, x.val[n.ID]), new(big.Int).Mul(others, x.rnd[n.ID])
		if err := n.Round(shares, func(pid uint16, b []byte) error {
			if int(pid) != f.me {
				return nil
			}
			v, r, good := parseShare(b)
			if !good {
				return errors.New("malformed share")
			}
			share.Add(share, v)
			rnd.Add(rnd, r)
			return nil
		}); err != nil {
			return err
		}
		st.share = modN(share)
		sum := ref.AddEG(ref.MulEG(x.l[n.ID], others), theirs)
		s := f.scalar()
		fin := ref.AddEG(sum, ref.Commit(w.H, new(big.Int), s))
		return n.Round([][]byte{append(f.proveRefresh(sum, fin, s), ref.EncEG(fin)...)}, ok)
	case "reveal":
		if st.share == nil {
			return errors.New("no share")
		}
		return n.Round([][]byte{st.share.Bytes()}, ok)
	case "exp":
		if st.share == nil {
			return errors.New("no share")
		}
		return n.Round([][]byte{ref.Enc(ref.Base(st.share))}, ok)
	}
	panic("harness: operation " + op.Kind)
}

type stand struct{ share *big.Int }

func runCommittee(prop string, kinds ...string) func(e *Env) {
	return func(e *Env) {
		p := e.Plan
		g := e.NewProgram(p)
		me := int(p.I["me"])
		d := &dealer{g: g, app: g.Apps[me], f: &core.Fault{Kind: "none", Mode: "none"}, r: core.NewRand(p.Seed, 97)}
		d.v, d.rnd = Scalar(d.r), Scalar(d.r)
		d.eg = ref.Commit(g.W.H, d.v, d.rnd)
		f := &flock{dealer: d, me: me}
		gone := func(id, k int) bool {
			for _, x := range p.Faults {
				if x.Kind == "leave" && x.From == id && x.Call <= k {
					return true
				}
			}
			return false
		}
		var skip []int
		for i := range g.Apps {
			if i == me {
				continue
			}
			skip = append(skip, i)
			app := g.Apps[i]
			g.W.Spawn(i, func(n *Node) {
				st := &stand{}
				for k, op := range p.Ops {
					if gone(n.ID, k) {
						break
					}
					call := n.Call(op.Kind, func() error { return f.op(g, n, k, op, st) })
					if op.Kind == "gen" || op.Kind == "reshare" {
						app.Res[k] = &OpRes{Call: call}
						if call.Err != nil {
							break
						}
					}
				}
				n.Call("stop", func() error { n.Stop(); return nil })
			})
		}
		g.Run(func() {
			g.BadResults(prop)
			m := g.Model()
			g.CheckReveals(prop, m, kinds...)
			for k, op := range p.Ops {
				if r := g.Apps[me].Res[k]; (op.Kind == "gen" || op.Kind == "reshare") && r != nil && r.Call != nil && r.Call.Done && r.Call.Err != nil {
					g.W.Violate(prop+"/fails-without-cause", "party %d operation %d (%s) failed although nothing failed: %v", me, k, op.Kind, r.Call.Err)
				}
			}
		}, skip...)
	}
}

// committeeOf is a run with n parties and threshold t; all but the last ones leave.
func committeeOf(kind string, n, t, me int) *core.Plan {
	p := &core.Plan{N: n, T: t, Seed: uint64(100*n + t), Net: core.Net{BufCap: 1 << 16}, I: map[string]int64{"me": int64(me)},
		Ops: []core.Op{{Kind: "gen", A: 0}, {Kind: "reshare", A: 0, B: 1, C: int64(t)}, {Kind: kind, A: 1}}}
	for i, left := 0, n-t; left > 0; i++ {
		if i != me {
			p.Faults = append(p.Faults, core.Fault{Kind: "leave", From: i, Call: 2})
			left--
		}
	}
	return p
}

func init() {
	plans := func(kind string) func() []*core.Plan {
		return func() []*core.Plan {
			return []*core.Plan{committeeOf(kind, 22, 22, 21), committeeOf(kind, 22, 16, 3)}
		}
	}
	register("C09", &Scenario{Name: "committee", Run: runCommittee("C09", "reveal"), Directed: plans("reveal")})
	register("C10", &Scenario{Name: "committee", Run: runCommittee("C10", "exp"), Directed: plans("exp")})
}
