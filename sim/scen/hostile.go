package scen

import (
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync/atomic"
	"time"

	"aaa.verif/sim/core"
	"aaa.verif/sim/ref"
	"gitlab.com/alephledger/core-go/pkg/network"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

// A peer that sends whatever it likes (C05).

// ---- connections and frames ----

// Ops of party p.I["byz"]: "conn" (A victim, B how the connection attempt goes wrong, C salt),
// "frame" (A round, B recipient, C kind, D salt), "drop" (A: the next incoming connection is
// closed B times before one is kept).

const (
	connEmpty = iota
	connOneByte
	connOutOfRange
	connFar
	connVictim
	connJunk
	connSlow
	connTwice
	connKinds
)

const (
	frProper = iota
	frWrongRound
	frWrongID
	frShort
	frZero
	frHuge
	frMax
	frNegative
	frJunk
	frClose
	frBig
	frTruncated
	frKinds
)

func genPeer(r *rand.Rand, p *core.Plan) {
	p.N = 2 + r.IntN(3)
	b := r.IntN(p.N)
	k := 1 + r.IntN(3)
	p.I = map[string]int64{"byz": int64(b), "rounds": int64(k)}
	GenNet(r, p)
	for i, m := 0, r.IntN(5); i < m; i++ {
		p.Ops = append(p.Ops, core.Op{Kind: "conn", A: int64((b + 1 + r.IntN(p.N-1)) % p.N), B: int64(r.IntN(connKinds)), C: int64(r.IntN(1 << 20))})
	}
	for i := 0; i < k; i++ {
		for j := 0; j < p.N; j++ {
			if j != b && r.IntN(3) == 0 {
				p.Ops = append(p.Ops, core.Op{Kind: "frame", A: int64(i), B: int64(j), C: int64(1 + r.IntN(frKinds-1)), D: int64(r.IntN(1 << 20))})
			}
		}
	}
	if r.IntN(3) == 0 {
		p.Ops = append(p.Ops, core.Op{Kind: "drop", A: int64(1 + r.IntN(4))})
	}
	for i, m := 0, r.IntN(3); i < m; i++ {
		a := r.IntN(p.N)
		c := (a + 1 + r.IntN(p.N-1)) % p.N
		p.Faults = append(p.Faults, core.Fault{Kind: "stall", From: a, To: c, Off: r.IntN(60), Dur: int64(pick(r, 1, 100, 20000)) * int64(time.Millisecond)})
	}
}

func totalAlloc() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// frameKind is what the peer does to recipient j in a round.
func frameKind(p *core.Plan, round, j int) (int64, *rand.Rand) {
	for _, o := range p.Ops {
		if o.Kind == "frame" && int(o.A) == round && int(o.B) == j {
			return o.C, core.NewRand(p.Seed, 71, uint64(o.D))
		}
	}
	return frProper, core.NewRand(p.Seed, 72, uint64(round), uint64(j))
}

func runPeer(e *Env) {
	p := e.Plan
	w := e.NewWorld(p)
	b := int(p.I["byz"])
	k := int(p.I["rounds"])
	w.Ignore[b] = true
	var sent atomic.Int64
	before := totalAlloc()
	var wild atomic.Bool // something wrong was sent
	for i := 0; i < w.N; i++ {
		if i == b {
			continue
		}
		w.Spawn(i, func(n *Node) {
			for round := 0; round < k; round++ {
				n.Call(fmt.Sprintf("round%d", round), func() error {
					return n.Round([][]byte{Bytes(20+round, p.Seed, 73, uint64(round), uint64(n.ID))}, func(uint16, []byte) error { return nil })
				})
			}
			n.Call("stop", func() error { n.Stop(); return nil })
		})
	}
	w.Go(b, func(pt *core.Party) {
		pt.Yield()
		net := w.Net(b)
		drops := 0
		for _, o := range p.Ops {
			if o.Kind == "drop" {
				drops += int(o.A)
			}
		}
		// take what comes in
		for i := 1; i < w.N; i++ {
			go func() {
				for {
					conn, err := net.Listen()
					pt.CheckAlive()
					if err != nil {
						continue
					}
					buf := make([]byte, 64)
					if _, err := conn.Read(buf[:2]); err == nil {
						pt.CheckAlive()
						if drops > 0 {
							drops--
							w.Count("fault.byzantine_accept_drop")
							conn.Close()
							pt.CheckAlive()
							return
						}
						for {
							if _, err := conn.Read(buf); err != nil {
								break
							}
							pt.CheckAlive()
						}
					}
					pt.CheckAlive()
					conn.Close()
					return
				}
			}()
		}
		dial := func(to int) network.Connection {
			for {
				c, err := net.Dial(uint16(to))
				pt.CheckAlive()
				if err == nil {
					return c
				}
			}
		}
		write := func(c network.Connection, x []byte) error {
			sent.Add(int64(len(x)))
			_, err := c.Write(x)
			pt.CheckAlive()
			if err == nil {
				err = c.Flush()
				pt.CheckAlive()
			}
			return err
		}
		links := map[int]network.Connection{}
		proper := func(to int) {
			if links[to] != nil {
				return
			}
			c := dial(to)
			write(c, []byte{byte(b), byte(b >> 8)})
			links[to] = c
		}
		for _, o := range p.Ops {
			if o.Kind != "conn" {
				continue
			}
			to := int(o.A)
			if to == b || to >= w.N {
				continue // after minimisation
			}
			r := core.NewRand(p.Seed, 74, uint64(o.C))
			w.Count(fmt.Sprintf("fault.byzantine_conn_%d", o.B))
			switch o.B {
			case connEmpty:
				dial(to).Close()
			case connOneByte:
				c := dial(to)
				write(c, []byte{byte(r.IntN(w.N))})
				c.Close()
			case connOutOfRange:
				c := dial(to)
				x := w.N + r.IntN(3)
				write(c, []byte{byte(x), byte(x >> 8)})
				if r.IntN(2) == 0 {
					write(c, Bytes(30, uint64(o.C)))
				}
				c.Close()
			case connFar:
				c := dial(to)
				write(c, []byte{byte(r.Uint32()), byte(128 + r.IntN(128))})
				c.Close()
			case connVictim:
				c := dial(to)
				write(c, []byte{byte(to), 0})
				c.Close()
			case connJunk:
				c := dial(to)
				x := Bytes(2+r.IntN(200), uint64(o.C), 1)
				x[1] |= 0x10
				go func() { // blocks if nobody accepts the connection
					write(c, x)
					c.Close()
				}()
			case connSlow:
				// a valid handshake in two pieces
				if links[to] == nil {
					c := dial(to)
					write(c, []byte{byte(b)})
					time.Sleep(time.Duration(1+r.IntN(3000)) * time.Millisecond)
					pt.Yield()
					pt.CheckAlive()
					write(c, []byte{byte(b >> 8)})
					links[to] = c
				}
			case connTwice:
				proper(to)
				c := dial(to)
				write(c, []byte{byte(b), byte(b >> 8)})
				more := r.IntN(2) == 0
				go func() {
					if more {
						write(c, core.FrameBytes(core.Body(uint16(b), 0, []byte("x"))))
					}
					c.Close()
				}()
			}
			pt.CheckAlive()
		}
		frames := func(j int, c network.Connection) {
			for round := 0; round < k; round++ {
				kind, r := frameKind(p, round, j)
				pay := Bytes(r.IntN(100), p.Seed, 75, uint64(round))
				body := core.Body(uint16(b), int64(round), pay)
				var x []byte
				closing := false
				u64 := func(v uint64) []byte {
					l := make([]byte, 8)
					binary.LittleEndian.PutUint64(l, v)
					return append(l, body[:r.IntN(len(body)+1)]...)
				}
				switch kind {
				case frProper:
					x = core.FrameBytes(body)
				case frWrongRound:
					x = core.FrameBytes(core.Body(uint16(b), int64(round)-1+2*int64(r.IntN(2)), pay))
				case frWrongID:
					x = core.FrameBytes(core.Body(uint16(r.Uint32()), int64(round), pay))
					if binary.LittleEndian.Uint16(x[8:]) == uint16(b) {
						x[8]++
					}
				case frShort:
					x = core.FrameBytes(body[:r.IntN(10)])
				case frZero:
					x = make([]byte, 8)
				case frHuge:
					x, closing = u64(1<<31-1+uint64(r.IntN(3))), true
				case frMax:
					x, closing = u64(uint64(1)<<(32+r.IntN(31))-uint64(r.IntN(2))), true
				case frNegative:
					x, closing = u64(-uint64(1+r.IntN(20))), true
				case frJunk:
					x, closing = Bytes(1+r.IntN(60), p.Seed, 76, uint64(round)), true
				case frClose:
					closing = true
				case frBig:
					x = core.FrameBytes(core.Body(uint16(b), int64(round), Bytes(4000, p.Seed)))
				case frTruncated:
					x, closing = core.FrameBytes(body)[:r.IntN(18+len(pay))], true
				}
				if kind != frProper && kind != frBig {
					wild.Store(true)
				}
				w.Count(fmt.Sprintf("fault.byzantine_frame_%d", kind))
				if len(x) > 0 && write(c, x) != nil {
					closing = true
				}
				if closing {
					break
				}
			}
			c.Close()
		}
		for j := 0; j < w.N; j++ {
			if j != b {
				proper(j)
			}
		}
		// every recipient has its own writer: one may stop reading for good
		for j := 0; j < w.N; j++ {
			if j != b {
				go frames(j, links[j])
			}
		}
	})
	w.Finish(func() {
		if wild.Load() || len(p.Ops) > 0 {
			e.Nontriv = true
		}
		// what the honest parties make of it
		for i := 0; i < w.N; i++ {
			if i == b {
				continue
			}
			for r, rec := range w.Nodes[i].Recs {
				if !rec.Done {
					continue
				}
				for _, m := range rec.Miss {
					if m != b {
						w.Violate("C05/honest-party-blamed", "party %d round %d: the error names party %d, but only party %d misbehaves: %v", i, r, m, b, rec.Err)
					}
				}
				if rec.Err != nil && !rec.HasMiss {
					// the peer may have closed the stream this party writes to
					for j := 0; j < w.N; j++ {
						if j != i && j != b && rec.Checks[j] != 1 {
							w.Violate("C05/honest-round-disturbed", "party %d round %d: the payload of party %d was not delivered: %v", i, r, j, rec.Err)
						}
					}
				}
				for j := 0; j < w.N; j++ {
					if j == i || j == b {
						continue
					}
					if string(rec.Got[j]) != string(Bytes(20+r, p.Seed, 73, uint64(r), uint64(j))) {
						w.Violate("C05/honest-round-disturbed", "party %d round %d: the payload of party %d did not arrive as sent (%d validations)", i, r, j, rec.Checks[j])
					}
				}
			}
			if n := len(w.Nodes[i].Calls); !w.Hung && n < k+1 {
				w.Violate("C05/incomplete", "party %d finished only %d of %d calls", i, n, k+1)
			}
		}
		own := uint64(24 << 20)
		if p.Net.Fine > 0 {
			own += uint64(w.Steps) << 14 // what the scheduling points themselves take
		}
		if d := totalAlloc() - before; d > own+uint64(sent.Load())*64 {
			w.Violate("C05/allocates-too-much", "a run in which the hostile peer sent about %d kB allocated %d MB", sent.Load()>>10, d>>20)
		}
	})
}

// runSilentConns: party 2 opens as many connections to party 0 as party 0 has tasks accepting
// connections and says nothing on them.
func runSilentConns(e *Env) {
	p := e.Plan
	w := e.NewWorld(p)
	w.Ignore[2] = true
	w.MayHang = true
	spawnHonest(w, 2)
	w.Go(2, func(pt *core.Party) {
		pt.Yield()
		for i := 0; i < 2; i++ {
			w.Net(2).Dial(0)
			pt.CheckAlive()
		}
		w.Count("fault.byzantine_silent_connection")
		go acceptAll(w, pt)
		for j := 0; j < 2; j++ {
			c, err := w.Net(2).Dial(uint16(j))
			pt.CheckAlive()
			if err == nil {
				c.Write([]byte{2, 0})
				c.Flush()
				pt.CheckAlive()
				c.Write(core.FrameBytes(core.Body(2, 0, nil)))
				c.Flush()
				pt.CheckAlive()
			}
		}
	})
	w.Finish(func() {
		e.Nontriv = true
		if r := w.Nodes[0].Recs; len(r) == 0 || !r[0].Done {
			w.Violate("C05/silent-connections-block", "party 0 never completes a round: party 2 opened as many connections as party 0 accepts at a time and sends nothing on them")
		}
	})
}

// runImpersonate: party 2 introduces itself to party 0 as party 1, before party 1 does.
func runImpersonate(e *Env) {
	p := e.Plan
	w := e.NewWorld(p)
	w.Ignore[2] = true
	w.MayHang = true
	spawnHonest(w, 2)
	w.Go(2, func(pt *core.Party) {
		pt.Yield()
		go acceptAll(w, pt)
		for i, id := range []byte{1, 2, 2} {
			c, err := w.Net(2).Dial(uint16(i / 2))
			pt.CheckAlive()
			if err == nil {
				c.Write([]byte{id, 0})
				c.Flush()
				pt.CheckAlive()
				c.Write(core.FrameBytes(core.Body(uint16(id), 0, []byte("forged"))))
				c.Flush()
				pt.CheckAlive()
			}
		}
		w.Count("fault.byzantine_impersonation")
	})
	w.Finish(func() {
		e.Nontriv = true
		r := w.Nodes[0].Recs
		if len(r) == 0 || !r[0].Done || string(r[0].Got[1]) != "hello from 1" {
			got := "nothing"
			if len(r) > 0 && r[0].Got[1] != nil {
				got = fmt.Sprintf("%q", r[0].Got[1])
			}
			w.Violate("C05/impersonated-party-excluded", "party 2 introduced itself to party 0 as party 1, from which party 0 then received %s", got)
		}
	})
}

func spawnHonest(w *World, b int) {
	w.NeedStart = true
	for i := 0; i < w.N; i++ {
		if i == b {
			continue
		}
		n := w.Nodes[i]
		n.NewServer(w.StartAt(), time.Hour)
		w.Go(i, func(pt *core.Party) {
			pt.Yield()
			if n.ID == 1 {
				time.Sleep(time.Second) // the hostile peer is faster
				pt.Yield()
			}
			n.Start()
			n.Call("round0", func() error {
				return n.Round([][]byte{[]byte(fmt.Sprintf("hello from %d", n.ID))}, func(uint16, []byte) error { return nil })
			})
		})
	}
}

func acceptAll(w *World, pt *core.Party) {
	for {
		_, err := w.Net(pt.ID).Listen()
		pt.CheckAlive()
		_ = err
	}
}

// ---- payloads ----

// hostileModes says how a payload is replaced.
var hostileModes = []string{"flip", "flip", "flip", "trunc", "trunc", "garbage", "empty", "extend", "length", "length", "length", "zeros", "ones", "stale", "other"}

func (g *Program) devHostile(app *App, f *core.Fault, rec *Rec, honest []byte) []byte {
	r := core.NewRand(g.W.P.Seed, 77, uint64(f.N), uint64(len(honest)))
	c := append([]byte(nil), honest...)
	switch f.Mode {
	case "flip":
		if len(c) == 0 {
			return []byte{1}
		}
		for i, m := 0, 1+r.IntN(3); i < m; i++ {
			at := r.IntN(len(c))
			if r.IntN(3) == 0 {
				at = r.IntN(min(len(c), 16))
			}
			c[at] ^= 1 << r.IntN(8)
		}
		return c
	case "trunc":
		if len(c) == 0 {
			return nil
		}
		return c[:r.IntN(len(c))]
	case "garbage":
		return Bytes(1+r.IntN(2*len(c)+20), g.W.P.Seed, 78, uint64(f.N))
	case "empty":
		return []byte{}
	case "extend":
		return append(c, Bytes(1+r.IntN(50), uint64(f.N))...)
	case "zeros", "ones":
		v := byte(0)
		if f.Mode == "ones" {
			v = 0xff
		}
		at := 0
		if len(c) > 0 {
			at = r.IntN(len(c))
		}
		for i := at; i < len(c); i++ {
			c[i] = v
		}
		return c
	case "length":
		// an extreme value where a length may be
		if len(c) < 4 {
			return Bytes(4, uint64(f.N))
		}
		var at int
		switch r.IntN(4) {
		case 0:
			at = 0
		case 1:
			at = min(4, len(c)-4)
		case 2:
			// in front of an encoded element: two lengths of at most 32
			var cand []int
			for i := 0; i+8 <= len(c); i++ {
				if c[i]|c[i+1]|c[i+2]|c[i+4]|c[i+5]|c[i+6] == 0 && c[i+3] <= 33 && c[i+7] <= 33 && c[i+3] >= 28 {
					cand = append(cand, i, i+4)
				}
			}
			if len(cand) == 0 {
				cand = []int{0}
			}
			at = cand[r.IntN(len(cand))]
		case 3:
			at = r.IntN(len(c) - 3)
		}
		at = min(at, len(c)-4)
		v := uint32(pick(r, 0, 1, 31, 33, 64, 255, 1<<16, 1<<20, 1<<26, 1<<28, 1<<29, 1<<30, 1<<31-1, 1<<31, 1<<32-1, 1<<32-8))
		if r.IntN(2) == 0 {
			binary.LittleEndian.PutUint32(c[at:], v)
		} else {
			binary.BigEndian.PutUint32(c[at:], v)
		}
		if r.IntN(3) == 0 {
			c = c[:at+4+r.IntN(len(c)-at-3)]
		}
		return c
	case "stale":
		for i := len(app.Recs) - 2; i >= 0; i-- {
			if s := app.Recs[i].Sent; len(s) > 0 && (i+f.N)%2 == 0 {
				return append([]byte(nil), s[0]...)
			}
		}
	case "other":
		for i := len(app.Recs) - 2; i >= 0; i-- {
			if s := app.Recs[i].Got[(app.ID+1)%g.W.N]; len(s) > 0 && (i+f.N)%2 == 0 {
				return append([]byte(nil), s...)
			}
		}
	}
	return nil
}

func genPayloads(r *rand.Rand, p *core.Plan) {
	p.N = 2 + r.IntN(2)
	p.T = 1 + r.IntN(p.N)
	GenNetLight(r, p)
	p.I = map[string]int64{"bits": 640}
	t := int64(p.T)
	rounds := []int{}
	add := func(n int, op core.Op) { p.Ops, rounds = append(p.Ops, op), append(rounds, n) }
	switch r.IntN(8) {
	case 0:
		add(2, core.Op{Kind: "keygen", A: 0})
	case 1:
		add(0, core.Op{Kind: "mkkey", A: 0})
		add(3, core.Op{Kind: "checkdh", A: 0, B: 0})
	case 2, 3, 4:
		add(1, core.Op{Kind: "gen", A: 0})
		add(6, core.Op{Kind: "reshare", A: 0, B: 1, C: t})
		add(1, core.Op{Kind: "reveal", A: 1})
		add(1, core.Op{Kind: "exp", A: 1})
	case 5:
		add(1, core.Op{Kind: "gen", A: 0})
		add(1, core.Op{Kind: "gen", A: 1})
		add(3, core.Op{Kind: "mult", A: 2, B: 0, C: 1})
		if r.IntN(3) == 0 {
			add(6, core.Op{Kind: "reshare", A: 2, B: 3, C: t})
			add(1, core.Op{Kind: "reveal", A: 3})
		}
	case 6:
		add(8, core.Op{Kind: "init"})
		if r.IntN(2) == 0 {
			add(30, core.Op{Kind: "presign", A: t})
			add(3, core.Op{Kind: "sign", A: 0})
		}
	case 7:
		add(1, core.Op{Kind: "gen", A: 0})
		add(2, core.Op{Kind: "keygen", A: 0})
		add(3, core.Op{Kind: "checkdh", A: 0, B: 0})
	}
	b := r.IntN(p.N)
	for i, m := 0, 1+r.IntN(2); i < m; i++ {
		k := r.IntN(len(p.Ops))
		if r.IntN(2) == 0 {
			k = len(p.Ops) - 1
			for rounds[k] == 1 && k > 0 && r.IntN(2) == 0 {
				k--
			}
		}
		if rounds[k] == 0 {
			k++
		}
		to := -1
		if r.IntN(2) == 0 {
			to = (b + 1 + r.IntN(p.N-1)) % p.N
		}
		p.Faults = append(p.Faults, core.Fault{Kind: "byz", From: b, To: to, Call: k, Off: r.IntN(rounds[k]), N: r.IntN(1 << 20), Mode: hostileModes[r.IntN(len(hostileModes))]})
	}
	if r.IntN(6) == 0 {
		genCrash(r, p, b, 1, len(p.Ops), 8*p.N)
	}
	genDelays(r, p)
}

func runPayloads(e *Env) {
	p := e.Plan
	g := e.NewProgram(p)
	w := g.W
	for _, op := range p.Ops {
		if op.Kind == "mult" {
			g.Pail = paillierKeys(w.N, int(p.I["bits"]))
		}
	}
	g.Tolerate["checkdh"] = true
	g.Tolerate["sign"] = true
	g.DH = func(a, b int64, app *App) (curve.Point, curve.Point) {
		return ToCurve(ref.Base(g.dhExp(b))), ToCurve(otherPoint(w))
	}
	for i := range g.Apps {
		g.Apps[i].MeasureAlloc = true
	}
	g.byzantine(g.devHostile)
	g.Run(func() {
		e.Nontriv = true
		g.BadResults("C05")
		g.roundErrors("C05", "gen", "reshare", "keygen", "checkdh", "init", "mult", "presign")
		for i, app := range g.Apps {
			for _, rec := range app.Recs {
				if rec.Alloc > 12<<20 {
					w.Violate("C05/allocates-too-much", "party %d: validating a payload of %d bytes in %s allocated %d MB", i, rec.AllocFor, rec.Name, rec.Alloc>>20)
				}
			}
		}
	})
}

func init() {
	register("C05", &Scenario{Name: "peer", Weight: 1, Gen: genPeer, Run: runPeer})
	register("C05", &Scenario{Name: "payloads", Weight: 1, Gen: genPayloads, Run: runPayloads})
	three := func() []*core.Plan {
		return []*core.Plan{{N: 3, T: 3, Policy: 0, Net: core.Net{BufCap: 4096}}}
	}
	register("C05", &Scenario{Name: "silent", Run: runSilentConns, Directed: three})
	register("C05", &Scenario{Name: "impersonation", Run: runImpersonate, Directed: three})
}
