package scen

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"sort"
	"time"

	"aaa.verif/sim/core"
	"aaa.verif/sim/ref"
	"gitlab.com/alephledger/core-go/pkg/network"
)

var _ = ref.N

// Rounds over the real sync server (C01, C02, C03, C04).
//
// Ops: "pay" (A round, B sender, C 0 broadcast / 1 per recipient, D size),
// "reject" (A round, B receiver, C sender), "byz" (A round, B sender, C recipient or -1, D type).

const (
	byzStale = iota + 1
	byzFuture
	byzWrongID
	byzShort
	byzEmpty
	byzDup
	byzSwapPayload
	byzTrunc
	byzRoundBit
	byzIDBit
	byzKinds
)

type roundsCfg struct {
	crash, reset, stall, reject, byz bool
	startFaults                      bool
	bigPay, huge, long, wide         bool
	late                             bool
}

func genRounds(c roundsCfg) func(r *rand.Rand, p *core.Plan) {
	return func(r *rand.Rand, p *core.Plan) {
		p.N = 2 + r.IntN(3)
		if r.IntN(8) == 0 {
			p.N = 5
		}
		k := 1 + r.IntN(5)
		switch {
		case c.long:
			p.N = 2
			k = 200 + r.IntN(400)
		case c.huge:
			p.N = 2 + r.IntN(2)
			k = 1 + r.IntN(2)
		case c.wide:
			p.N = 6 + r.IntN(12)
			k = 1 + r.IntN(3)
		}
		p.I = map[string]int64{"rounds": int64(k), "reuse": int64(r.IntN(2)), "yield": int64(r.IntN(2))}
		GenNet(r, p)
		if c.bigPay || c.long || c.wide {
			GenNetLight(r, p)
		}
		if c.huge {
			GenNetLight(r, p)
			p.Net.Seg, p.Net.Window, p.Net.BufCap = 0, pick(r, 0, 0, 1<<17), 1<<16
			p.Net.EarlyPush, p.Net.Fine = 0, 0
		}
		hugeAt := [2]int{r.IntN(k), r.IntN(p.N)}
		total := 0
		sizes := map[[2]int]int{}
		for i := 0; i < k; i++ {
			for s := 0; s < p.N; s++ {
				d := pick(r, 0, 1, 7, 8, 9, 10, 33, 100, 300)
				if c.bigPay {
					d = pick(r, 0, 1, 100, 4096, 20000, 70000)
				}
				if p.Net.Seg == 2 && d > 300 {
					d = 300
				}
				if c.huge {
					d = pick(r, 0, 3, 70000)
					if hugeAt == [2]int{i, s} {
						d = pick(r, 1<<20, 1<<22, 1<<24, 1<<24+5, 20000000) + r.IntN(100)
					}
				}
				if c.long {
					d = r.IntN(12)
				}
				total += d
				mode := r.IntN(2)
				sizes[[2]int{i, s}] = d
				p.Ops = append(p.Ops, core.Op{Kind: "pay", A: int64(i), B: int64(s), C: int64(mode), D: int64(d)})
			}
		}
		if c.reject {
			for i, m := 0, r.IntN(4); i < m; i++ {
				a, b := r.IntN(p.N), r.IntN(p.N)
				if a != b {
					p.Ops = append(p.Ops, core.Op{Kind: "reject", A: int64(r.IntN(k)), B: int64(a), C: int64(b)})
				}
			}
		}
		if c.byz {
			b := r.IntN(p.N)
			for i, m := 0, 1+r.IntN(2); i < m; i++ {
				to := r.IntN(p.N)
				if to == b || r.IntN(3) == 0 {
					to = -1
				}
				p.Ops = append(p.Ops, core.Op{Kind: "byz", A: int64(r.IntN(k)), B: int64(b), C: int64(to), D: int64(1 + r.IntN(byzKinds-1) + 16*r.IntN(64))})
			}
		}
		// offset of the frame of round i on a link, roughly (exact for broadcasts of the sender)
		off := func(s, i int) int {
			o := 2
			for j := 0; j < i; j++ {
				o += 18 + sizes[[2]int{j, s}]
			}
			return o
		}
		where := func(s int) int {
			i := r.IntN(k)
			o := off(s, i)
			switch r.IntN(4) {
			case 0:
				return o // between frames
			case 1:
				return o + r.IntN(19)
			case 2:
				return o + 18 + sizes[[2]int{i, s}] - r.IntN(3)
			}
			return o + r.IntN(20+sizes[[2]int{i, s}])
		}
		pair := func() (int, int) {
			a := r.IntN(p.N)
			b := (a + 1 + r.IntN(p.N-1)) % p.N
			return a, b
		}
		if c.stall {
			for i, m := 0, 1+r.IntN(3); i < m; i++ {
				a, b := pair()
				o := where(a)
				if r.IntN(6) == 0 {
					o = r.IntN(3)
				}
				p.Faults = append(p.Faults, core.Fault{Kind: "stall", From: a, To: b, Off: o, Dur: int64(pick(r, 1, 5, 1000, 60000)) * int64(time.Millisecond)})
			}
		}
		if c.reset {
			for i, m := 0, 1+r.IntN(2); i < m; i++ {
				a, b := pair()
				p.Faults = append(p.Faults, core.Fault{Kind: "reset", From: a, To: b, Off: max(2, where(a)), Mode: []string{"fin", "rst", "lost"}[r.IntN(3)]})
			}
		}
		if c.crash {
			v := r.IntN(p.N)
			p.Faults = append(p.Faults, core.Fault{Kind: "crash", From: v, Call: 1 + r.IntN(k), Ops: r.IntN(6 * p.N), Mode: []string{"fin", "rst", "lost"}[r.IntN(3)]})
			if p.N > 3 && r.IntN(3) == 0 {
				p.Faults = append(p.Faults, core.Fault{Kind: "crash", From: (v + 1) % p.N, Call: 1 + r.IntN(k), Ops: r.IntN(6 * p.N), Mode: "rst"})
			}
		}
		if c.startFaults && r.IntN(12) == 0 {
			// the network between some is down until shortly before the start
			var rest []core.Fault
			for _, f := range p.Faults {
				if f.Kind != "stall" {
					rest = append(rest, f)
				}
			}
			p.Faults = rest
			for i, m := 0, 1+r.IntN(4); i < m; i++ {
				a, b := pair()
				p.Faults = append(p.Faults, core.Fault{Kind: "outage", From: a, To: b, Dur: int64(pick(r, 1000, 30000, 80000, 100000)) * int64(time.Millisecond)})
			}
		} else if c.startFaults {
			for i, m := 0, 1+r.IntN(4); i < m; i++ {
				a, b := pair()
				if r.IntN(2) == 0 {
					p.Faults = append(p.Faults, core.Fault{Kind: "dialfail", From: a, To: b, N: 1 + r.IntN(5), Dur: int64(1+r.IntN(2000)) * int64(time.Millisecond)})
				} else {
					p.Faults = append(p.Faults, core.Fault{Kind: "listenfail", From: a, N: 1 + r.IntN(5)})
				}
			}
		}
	}
}

// committee is a run with many parties and small payloads, of which only some are real.
func committee(n, rounds int, real ...int64) *core.Plan {
	p := &core.Plan{N: n, Seed: uint64(n), Net: core.Net{BufCap: 4096}, I: map[string]int64{"rounds": int64(rounds)}}
	for i := 0; i < rounds; i++ {
		for s := 0; s < n; s++ {
			p.Ops = append(p.Ops, core.Op{Kind: "pay", A: int64(i), B: int64(s), C: int64(i+s) & 1, D: 8})
		}
	}
	for _, i := range real {
		p.Ops = append(p.Ops, core.Op{Kind: "real", A: i})
	}
	return p
}

// standIn plays a party that does nothing but connect to the real ones and send them what
// it should.
func standIn(w *World, rp *roundsPlan, id int) {
	w.Go(id, func(pt *core.Party) {
		pt.Yield()
		nt := w.Net(id)
		var out []network.Connection
		for i := 0; i < w.N; i++ {
			if !rp.real[i] {
				continue
			}
			c, err := nt.Dial(uint16(i))
			if err != nil {
				return
			}
			c.Write([]byte{byte(id), byte(id >> 8)})
			c.Flush()
			out = append(out, c)
			if _, err := nt.Listen(); err != nil {
				return
			}
		}
		time.Sleep(time.Until(w.StartAt()) + time.Duration(id)*time.Millisecond)
		for k := 0; k < rp.k; k++ {
			o := 0
			for i := 0; i < w.N; i++ {
				if rp.real[i] {
					out[o].Write(core.FrameBytes(core.Body(uint16(id), int64(k), rp.payload(w.P.Seed, k, id, i))))
					out[o].Flush()
					o++
				}
			}
		}
	})
}

type roundsPlan struct {
	real   map[int]bool // nil: all
	k      int
	fill   int // size of the payloads that no op mentions
	mode   map[[2]int]int
	size   map[[2]int]int
	reject map[[3]int]bool
	byz    []core.Op
	// stopped: from this round on what a party itself makes of its rounds is not judged.
	stopped map[int]int
}

func parseRounds(p *core.Plan) *roundsPlan {
	rp := &roundsPlan{k: int(p.I["rounds"]), fill: int(p.I["fill"]), mode: map[[2]int]int{}, size: map[[2]int]int{}, reject: map[[3]int]bool{}}
	for _, o := range p.Ops {
		k := [2]int{int(o.A), int(o.B)}
		switch o.Kind {
		case "pay":
			rp.mode[k], rp.size[k] = int(o.C), int(o.D)
		case "reject":
			rp.reject[[3]int{int(o.A), int(o.B), int(o.C)}] = true
		case "byz":
			rp.byz = append(rp.byz, o)
		case "real":
			if rp.real == nil {
				rp.real = map[int]bool{}
			}
			rp.real[int(o.A)] = true
		}
	}
	return rp
}

// payload is what sender submits for recipient in a round.
func (rp *roundsPlan) payload(seed uint64, round, sender, to int) []byte {
	k := [2]int{round, sender}
	n, ok := rp.size[k]
	if !ok {
		n = rp.fill
	}
	if rp.mode[k] == 0 {
		return Bytes(n, seed, 11, uint64(round), uint64(sender))
	}
	n += to // different sizes per recipient
	return Bytes(n, seed, 12, uint64(round), uint64(sender), uint64(to))
}

func runRounds(e *Env) {
	p := e.Plan
	w := e.NewWorld(p)
	rp := parseRounds(p)
	w.MaxSteps = max(w.MaxSteps, 40*rp.k)
	byz := map[int]bool{}
	poison := map[[2]int]bool{}
	for _, o := range rp.byz {
		byz[int(o.B)] = true
		w.Ignore[int(o.B)] = true
	}
	for b := range byz {
		b := b
		w.Filter[b] = func(f *core.Frame) []core.Raw {
			body := core.Body(f.ID, f.Round, f.Payload)
			out := []core.Raw{{Body: body}}
			for _, o := range rp.byz {
				if int(o.B) != b || int64(f.Idx) != o.A || (o.C >= 0 && int(o.C) != f.To) {
					continue
				}
				bit := o.D / 16
				switch o.D % 16 {
				case byzStale:
					out[0].Body = core.Body(f.ID, f.Round-1, f.Payload)
				case byzFuture:
					out[0].Body = core.Body(f.ID, f.Round+1, f.Payload)
				case byzWrongID:
					out[0].Body = core.Body((f.ID+1)%uint16(w.N+1), f.Round, f.Payload)
				case byzShort:
					out[0].Body = body[:5]
					poison[[2]int{b, f.To}] = true
				case byzEmpty:
					out[0].Body = []byte{}
					poison[[2]int{b, f.To}] = true
				case byzDup:
					out = append(out, core.Raw{Body: append([]byte(nil), body...)})
				case byzSwapPayload:
					out[0].Body = core.Body(f.ID, f.Round, append([]byte{0xAB}, f.Payload...))
				case byzRoundBit:
					out[0].Body = core.Body(f.ID, f.Round^int64(1)<<bit, f.Payload)
				case byzIDBit:
					out[0].Body = core.Body(f.ID^uint16(1)<<(bit%16), f.Round, f.Payload)
				case byzTrunc:
					if len(body) > 10 {
						out[0].Body = body[:len(body)-1]
					}
				}
			}
			return out
		}
	}
	for i := 0; i < w.N; i++ {
		if rp.real != nil && !rp.real[i] {
			standIn(w, rp, i)
			continue
		}
		w.Nodes[i].YieldInCheck = p.I["yield"] == 1
		w.Spawn(i, func(n *Node) {
			for k := 0; k < rp.k; k++ {
				k := k
				n.Call(fmt.Sprintf("round%d", k), func() error {
					var toSend [][]byte
					if rp.mode[[2]int{k, n.ID}] == 0 {
						toSend = [][]byte{rp.payload(p.Seed, k, n.ID, 0)}
					} else {
						for j := 0; j < w.N; j++ {
							toSend = append(toSend, rp.payload(p.Seed, k, n.ID, j))
						}
					}
					return n.Round(toSend, func(pid uint16, data []byte) error {
						if rp.reject[[3]int{k, n.ID, int(pid)}] {
							return fmt.Errorf("rejected by plan")
						}
						return nil
					})
				})
			}
		})
	}
	w.Finish(func() { checkRounds(w, rp, byz, poison) })
	e.Nontriv = w.Steps > 20
}

type verdict int

const (
	vOK verdict = iota
	vMissing
	vRejected
	vUnknown
)

// checkRounds compares what every party saw with a reference model of rounds: each stream
// is a sequence of frames, round k of a party consumes one frame of every stream.
func checkRounds(w *World, rp *roundsPlan, byz map[int]bool, poison map[[2]int]bool) {
	for a := 0; a < w.N; a++ {
		n := w.Nodes[a]
		exp := make([]map[int]verdict, len(n.Recs))
		data := make([]map[int][]byte, len(n.Recs))
		for i := range exp {
			exp[i], data[i] = map[int]verdict{}, map[int][]byte{}
		}
		for b := 0; b < w.N; b++ {
			if b == a {
				continue
			}
			in, ok := w.In(b, a)
			s := in.Bytes
			if !ok || len(s) < 2 {
				s = nil
			} else {
				s = s[2:]
			}
			pois := false
			for i := range n.Recs {
				if pois {
					exp[i][b] = vUnknown
					continue
				}
				exp[i][b] = vMissing
				if len(s) < 8 {
					s = nil
					continue
				}
				l := binary.LittleEndian.Uint64(s)
				if l > uint64(len(s)-8) {
					s = nil
					continue
				}
				body := s[8 : 8+l]
				s = s[8+l:]
				if l < 10 {
					pois = poison[[2]int{b, a}]
					continue
				}
				if int(binary.LittleEndian.Uint16(body)) != b || int64(binary.LittleEndian.Uint64(body[2:])) != int64(i) {
					continue
				}
				exp[i][b] = vOK
				data[i][b] = body[10:]
				if rp.reject[[3]int{i, a, b}] {
					exp[i][b] = vRejected
				}
			}
		}
		for i, rec := range n.Recs {
			// validation calls
			for b, c := range rec.Checks {
				switch {
				case b == a:
					w.Violate("C01/own-payload-validated", "party %d round %d: validation called for itself", a, i)
					continue
				case b < 0 || b >= w.N:
					w.Violate("C01/unknown-sender", "party %d round %d: validation called for %d", a, i, b)
					continue
				case c > 1:
					w.Violate("C01/validated-twice", "party %d round %d: payload of %d validated %d times", a, i, b, c)
				}
				if !bytes.Equal(rec.Got[b], rec.Kept[b]) {
					w.Violate("C01/payload-changed-later", "party %d round %d: the payload of %d, which the validation callback kept, changed after the round", a, i, b)
				}
				if !byz[b] {
					want := rp.payload(w.P.Seed, i, b, a)
					if !bytes.Equal(rec.Got[b], want) {
						w.Violate("C01/wrong-payload", "party %d round %d: from %d got %d bytes %s, submitted were %d bytes %s", a, i, b, len(rec.Got[b]), abbrev(rec.Got[b]), len(want), abbrev(want))
					}
				} else if exp[i][b] == vMissing {
					w.Violate("C01/undelivered-validated", "party %d round %d: a payload of %d was validated although none for this round arrived intact (%s)", a, i, b, abbrev(rec.Got[b]))
				} else if exp[i][b] != vUnknown && !bytes.Equal(rec.Got[b], data[i][b]) {
					w.Violate("C01/wrong-payload", "party %d round %d: from (byzantine) %d got %s, on the wire %s", a, i, b, abbrev(rec.Got[b]), abbrev(data[i][b]))
				}
			}
			if !rec.Done {
				continue
			}
			if at, ok := rp.stopped[a]; ok && i >= at {
				continue
			}
			late := rec.Err != nil && i == 0 && w.Nodes[a].W.P.I["start_ms"] != 0
			if late {
				continue
			}
			var want []int
			unknown := map[int]bool{}
			for b, v := range exp[i] {
				switch v {
				case vMissing, vRejected:
					want = append(want, b)
				case vUnknown:
					unknown[b] = true
				}
			}
			sort.Ints(want)
			if rec.Err == nil {
				if len(want) > 0 {
					w.Violate("C02/false-success", "party %d round %d returned success although the payloads of %v were absent, broken or rejected", a, i, want)
				}
				for b := range exp[i] {
					if in, ok := w.State(a, b); ok && containsInt(in.Failed, i+1) {
						w.Violate("C03/broken-connection-ignored", "party %d round %d returned success although the connection to %d broke while it was sending to it", a, i, b)
					}
					if rec.Checks[b] == 0 {
						w.Violate("C01/success-without-validation", "party %d round %d returned success without validating the payload of %d", a, i, b)
					}
				}
				continue
			}
			var got []int
			for _, b := range rec.Miss {
				if !unknown[b] {
					got = append(got, b)
				}
			}
			if len(got) == 0 && len(want) == 0 {
				if len(rec.Miss) == 0 {
					sendBroken := false
					for b := 0; b < w.N; b++ {
						if b != a {
							if in, ok := w.State(a, b); ok && (in.SendErr || in.Broken) {
								sendBroken = true
							}
						}
					}
					if !sendBroken {
						w.Violate("C02/error-without-cause", "party %d round %d failed (%v) although every payload arrived and was accepted and no connection is broken", a, i, rec.Err)
					}
				}
				continue
			}
			if !sameInts(got, want) {
				w.Violate("C02/wrong-blame", "party %d round %d failed naming %v as missing, the parties whose payloads were absent, broken or rejected are %v (%v)", a, i, rec.Miss, want, rec.Err)
			}
			for b, v := range exp[i] {
				if (v == vOK || v == vRejected) && rec.Checks[b] == 0 {
					w.Violate("C02/intact-not-validated", "party %d round %d failed because of %v; the intact payload of %d was never validated", a, i, want, b)
				}
			}
		}
	}
}

func containsInt(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func abbrev(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x..(%d)", b[:24], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// ---- C03: the silent peer ----

func runSilent(e *Env) {
	p := e.Plan
	w := e.NewWorld(p)
	w.MayHang = true
	for i := 0; i < w.N; i++ {
		w.Spawn(i, func(n *Node) {
			n.Call("round0", func() error {
				return n.Round([][]byte{{1, 2, 3}}, func(uint16, []byte) error { return nil })
			})
			if n.ID == 0 {
				// stays connected and never sends again
				w.Ignore[0] = true
				<-w.Quit
				return
			}
			n.Call("round1", func() error {
				return n.Round([][]byte{{4, 5, 6}}, func(uint16, []byte) error { return nil })
			})
		})
	}
	w.MaxSim = int64(6 * time.Hour)
	w.Finish(func() {
		for i := 1; i < w.N; i++ {
			n := w.Nodes[i]
			if len(n.Recs) > 1 && !n.Recs[1].Done {
				w.Violate("C03/silent-peer-blocks-round", "party %d still waits in round 1 after %v of silence of connected party 0 (round duration 1h)", i, time.Duration(w.Now()))
				break
			}
		}
	})
	e.Nontriv = true
}

// ---- C04 ----

func genStart(r *rand.Rand, p *core.Plan) {
	p.N = 2 + r.IntN(3)
	p.I = map[string]int64{"rounds": int64(1 + r.IntN(3)), "start_ms": int64(pick(r, 1, 10, 500, 5000, 60000))}
	GenNet(r, p)
	if p.Net.Seg == 2 {
		p.Net.Seg = 1
	}
	for i := 0; i < p.N; i++ {
		// skew of the party's clock and delay before it begins its first round, ms
		skew, delay := int64(0), int64(0)
		switch r.IntN(3) {
		case 0:
			skew = int64(r.IntN(2000)) - 1000
		case 1:
			skew = int64(r.IntN(int(2*p.I["start_ms"])+2)) - p.I["start_ms"]
		}
		switch r.IntN(4) {
		case 0:
			delay = int64(r.IntN(int(2*p.I["start_ms"]) + 2))
		case 1:
			delay = p.I["start_ms"] + skew + int64(r.IntN(7)) - 3
		}
		p.Ops = append(p.Ops, core.Op{Kind: "party", A: int64(i), B: skew, C: max(delay, 0)})
	}
	if r.IntN(2) == 0 {
		for i, m := 0, 1+r.IntN(3); i < m; i++ {
			a := r.IntN(p.N)
			b := (a + 1 + r.IntN(p.N-1)) % p.N
			switch r.IntN(3) {
			case 0:
				p.Faults = append(p.Faults, core.Fault{Kind: "dialfail", From: a, To: b, N: 1 + r.IntN(4), Dur: int64(1+r.IntN(int(p.I["start_ms"])+500)) * int64(time.Millisecond)})
			case 1:
				p.Faults = append(p.Faults, core.Fault{Kind: "listenfail", From: a, N: 1 + r.IntN(4)})
			case 2:
				p.Faults = append(p.Faults, core.Fault{Kind: "stall", From: a, To: b, Off: r.IntN(2), Dur: int64(1+r.IntN(int(p.I["start_ms"])*2+10)) * int64(time.Millisecond)})
			}
		}
	}
}

func runStart(e *Env) {
	p := e.Plan
	w := e.NewWorld(p)
	k := int(p.I["rounds"])
	skew, delay := make([]int64, w.N), make([]int64, w.N)
	for _, o := range p.Ops {
		if o.Kind == "party" && int(o.A) < w.N {
			skew[o.A], delay[o.A] = o.B, o.C
		}
	}
	ms := int64(time.Millisecond)
	startAt := make([]int64, w.N)
	begin := make([]int64, w.N)
	pay := func(round, sender int) []byte { return Bytes(20, p.Seed, 13, uint64(round), uint64(sender)) }
	lateParty := make([]bool, w.N)
	for i := 0; i < w.N; i++ {
		i := i
		startAt[i] = (p.I["start_ms"] + skew[i]) * ms
		begin[i] = -1
		w.Nodes[i].NewServer(w.Start().Add(time.Duration(startAt[i])), time.Hour)
		w.Spawn(i, func(n *Node) {
			time.Sleep(time.Duration(delay[i] * ms))
			for r := 0; r < k; r++ {
				r := r
				n.Call(fmt.Sprintf("round%d", r), func() error {
					if r == 0 {
						begin[i] = w.Now()
					}
					return n.Round([][]byte{pay(r, i)}, func(pid uint16, data []byte) error { return nil })
				})
				if n.Calls[len(n.Calls)-1].Err != nil {
					// as an application would: give up and disconnect
					lateParty[i] = true
					n.Call("stop", func() error { n.Stop(); return nil })
					return
				}
			}
		})
	}
	w.Finish(func() {
		for i := 0; i < w.N; i++ {
			n := w.Nodes[i]
			first, setup := int64(-1), int64(-1)
			for j := 0; j < w.N; j++ {
				if j == i {
					continue
				}
				if out, ok := w.In(i, j); ok && out.FirstAt >= 0 && (first < 0 || out.FirstAt < first) {
					first = out.FirstAt
				}
				if in, ok := w.In(j, i); ok {
					setup = max(setup, in.HSDone)
				}
			}
			if first >= 0 && first < startAt[i] {
				w.Violate("C04/early-transmission", "party %d put first-round bytes on the wire at %v, start time %v", i, time.Duration(first), time.Duration(startAt[i]))
			}
			if len(n.Recs) > 0 && begin[i] > startAt[i] {
				rec := n.Recs[0]
				if rec.Done && rec.Err == nil {
					w.Violate("C04/late-start-accepted", "party %d began its first round %v after the start time and got no error", i, time.Duration(begin[i]-startAt[i]))
				}
				if rec.Err != nil && first >= 0 && first < rec.End {
					w.Violate("C04/late-start-transmits", "party %d began its first round %v late and still transmitted a payload", i, time.Duration(begin[i]-startAt[i]))
				}
			} else if len(n.Recs) > 0 && setup > startAt[i]+ms {
				if rec := n.Recs[0]; rec.Done && (rec.Err == nil || (first >= 0 && first < rec.End)) {
					w.Violate("C04/late-start-accepted", "party %d: connections were set up only %v after the start time, yet the first round went ahead (err=%v)", i, time.Duration(setup-startAt[i]), rec.Err)
				}
			}
			for ri, rec := range n.Recs {
				for b, got := range rec.Got {
					if !bytes.Equal(got, pay(ri, b)) {
						w.Violate("C04/foreign-round-accepted", "party %d round %d accepted from %d a payload that is not of this round: %s", i, ri, b, abbrev(got))
					}
				}
			}
		}
	})
	e.Nontriv = true
}

func init() {
	all := roundsCfg{stall: true, reset: true, crash: true, reject: true, byz: true, startFaults: true}
	many := roundsCfg{wide: true, stall: true, reset: true, crash: true, reject: true, byz: true, startFaults: true}
	plain := &Scenario{Name: "plain", Weight: 400, Gen: genRounds(roundsCfg{stall: true, startFaults: true}), Run: runRounds}
	big := &Scenario{Name: "big-payloads", Weight: 100, Gen: genRounds(roundsCfg{stall: true, bigPay: true}), Run: runRounds}
	fail := &Scenario{Name: "failures", Weight: 400, Gen: genRounds(roundsCfg{reset: true, crash: false, stall: true, reject: true}), Run: runRounds}
	crash := &Scenario{Name: "crashes", Weight: 300, Gen: genRounds(roundsCfg{crash: true, stall: true, reject: true}), Run: runRounds}
	byz := &Scenario{Name: "misframing", Weight: 300, Gen: genRounds(roundsCfg{byz: true, reject: true}), Run: runRounds}
	huge := &Scenario{Name: "huge-payloads", Weight: 3, Gen: genRounds(roundsCfg{stall: true, huge: true}), Run: runRounds}
	long := &Scenario{Name: "many-rounds", Weight: 10, Gen: genRounds(roundsCfg{long: true, reject: true, byz: true}), Run: runRounds}
	wide := &Scenario{Name: "many-parties", Weight: 20, Gen: genRounds(many), Run: runRounds}
	mix := &Scenario{Name: "everything", Weight: 200, Gen: genRounds(all), Run: runRounds}
	for _, s := range []*Scenario{plain, big, fail, crash, byz, mix, huge, long, wide} {
		register("C01", s)
	}
	large := func() []*core.Plan {
		p := committee(300, 3, 1, 257)
		for _, x := range [][3]int64{{0, 1, 257}, {0, 257, 2}, {0, 257, 258}, {1, 1, 256}, {1, 257, 0}, {2, 1, 299}} {
			p.Ops = append(p.Ops, core.Op{Kind: "reject", A: x[0], B: x[1], C: x[2]})
		}
		p.Faults = []core.Fault{{Kind: "reset", From: 260, To: 1, Off: 2 + 2*26, Mode: "fin"}, {Kind: "reset", From: 5, To: 257, Off: 2 + 26 + 5, Mode: "rst"}}
		// round numbers beyond 16 bits
		h := &core.Plan{N: 2, Seed: 3, Net: core.Net{BufCap: 4096}, I: map[string]int64{"rounds": 66000, "fill": 8}}
		for _, k := range []int64{120, 200, 300, 32760, 32800, 65530, 65600} {
			h.Ops = append(h.Ops, core.Op{Kind: "reject", A: k, B: k / 10 % 2, C: 1 - k/10%2})
		}
		return []*core.Plan{committee(300, 2, 1, 257), p, h}
	}
	for _, c := range []string{"C01", "C02"} {
		register(c, &Scenario{Name: "committee", Run: runRounds, Directed: large})
	}
	for _, s := range []*Scenario{fail, crash, byz, mix, plain, long, wide} {
		register("C02", s)
	}
	for _, s := range []*Scenario{plain, big, fail, crash, mix, huge, wide} {
		register("C03", s)
	}
	register("C03", &Scenario{Name: "silent-peer", Run: runSilent, Directed: func() []*core.Plan {
		return []*core.Plan{{N: 3}}
	}})
	register("C04", &Scenario{Name: "start", Weight: 1, Gen: genStart, Run: runStart})
}
