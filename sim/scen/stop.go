package scen

import (
	"fmt"
	"math/rand/v2"
	"sync"
	"time"

	"aaa.verif/sim/core"
)

// Stopping (C23). Parties stop their servers after a round, while one is in progress (from
// another task), before the first one, or twice; the others go on. Ops: "pay" as in rounds,
// "stop" (A party, B round, C how, D delay).

const (
	stopAfter  = iota // the party calls Stop once round B is over
	stopDuring        // another task calls Stop D scheduling points after round B has begun
	stopTwice         // as stopAfter, but Stop is called a second time
	stopGoOn          // as stopAfter, but the party then calls the remaining rounds
	stopWaited        // as stopDuring; the next party calls round B only after Stop has returned
	stopKinds
)

func genStop(r *rand.Rand, p *core.Plan) {
	p.N = 2 + r.IntN(4)
	k := 1 + r.IntN(4)
	p.I = map[string]int64{"rounds": int64(k), "fill": int64(r.IntN(40)), "reuse": int64(r.IntN(2))}
	GenNet(r, p)
	for i := 0; i < k; i++ {
		for s := 0; s < p.N; s++ {
			if r.IntN(3) == 0 {
				p.Ops = append(p.Ops, core.Op{Kind: "pay", A: int64(i), B: int64(s), C: int64(r.IntN(2)), D: int64(pick(r, 0, 1, 100, 5000) + r.IntN(20))})
			}
		}
	}
	for i, m := 0, 1+r.IntN(max(1, p.N-1)); i < m; i++ {
		p.Ops = append(p.Ops, core.Op{Kind: "stop", A: int64((i + int(p.Seed%16)) % p.N), B: int64(r.IntN(k+1) - 1), C: int64(r.IntN(stopKinds)), D: int64(r.IntN(12 * p.N))})
	}
	for i, m := 0, r.IntN(3); i < m; i++ {
		a := r.IntN(p.N)
		p.Faults = append(p.Faults, core.Fault{Kind: "stall", From: a, To: (a + 1 + r.IntN(p.N-1)) % p.N, Off: r.IntN(200), Dur: int64(pick(r, 1, 5, 1000, 60000)) * int64(time.Millisecond)})
	}
}

func runStop(e *Env) {
	p := e.Plan
	w := e.NewWorld(p)
	rp := parseRounds(p)
	rp.stopped = map[int]int{}
	stops := map[int]core.Op{}
	for _, o := range p.Ops {
		if _, ok := stops[int(o.A)]; o.Kind == "stop" && !ok && o.A >= 0 && int(o.A) < w.N {
			stops[int(o.A)] = o
			at := int(o.B) + 1
			if o.C == stopDuring || o.C == stopWaited {
				at = max(0, int(o.B))
			}
			rp.stopped[int(o.A)] = at
		}
	}
	ended := make([]bool, w.N)
	// waits: who calls which round only after whom has stopped
	waits := map[[2]int]int{}
	gone := map[int]chan struct{}{}
	for a := 0; a < w.N; a++ {
		if o, ok := stops[a]; ok && o.C == stopWaited {
			gone[a] = make(chan struct{})
			waits[[2]int{(a + 1) % w.N, max(0, int(o.B))}] = a
			break // two could wait for each other
		}
	}
	for i := 0; i < w.N; i++ {
		w.Spawn(i, func(n *Node) {
			o, stops := stops[n.ID]
			var wg sync.WaitGroup
			stop := func(name string) {
				n.Call(name, func() error { n.Real.Stop(); return nil })
				ended[n.ID] = true
			}
			over := false
			for k := -1; k < rp.k && !over; k++ {
				if a, ok := waits[[2]int{n.ID, k}]; ok {
					select {
					case <-gone[a]:
					case <-w.Quit:
					}
					n.Party.Yield()
				}
				if stops && (o.C == stopDuring || o.C == stopWaited) && max(0, int(o.B)) == k {
					wg.Add(1)
					go func() {
						defer wg.Done()
						w.Name("stop")
						for d := int64(0); d < o.D; d++ {
							n.Party.Yield()
						}
						n.Party.CheckAlive()
						w.Count("fault.stop_during_round")
						n.Real.Stop()
						ended[n.ID] = true
						if c := gone[n.ID]; c != nil {
							close(c)
						}
					}()
				}
				if k >= 0 {
					k := k
					n.Call(fmt.Sprintf("round%d", k), func() error {
						var toSend [][]byte
						if rp.mode[[2]int{k, n.ID}] == 0 {
							toSend = [][]byte{rp.payload(p.Seed, k, n.ID, 0)}
						} else {
							for j := 0; j < w.N; j++ {
								toSend = append(toSend, rp.payload(p.Seed, k, n.ID, j))
							}
						}
						return n.Round(toSend, func(uint16, []byte) error { return nil })
					})
				}
				if stops && o.C != stopDuring && o.C != stopWaited && int(o.B) == k {
					w.Count("fault.stop")
					stop("stop")
					switch o.C {
					case stopTwice:
						stop("stop again")
						over = true
					case stopAfter:
						over = true
					}
				}
			}
			wg.Wait()
			if !stops {
				stop("stop")
			}
		})
	}
	w.Finish(func() {
		if !w.Hung {
			for i, s := range ended {
				if !s {
					continue // the task that stops it has not come to it
				}
				for _, j := range w.Open(i) {
					w.Violate("C23/connection-left-open", "party %d stopped, its connection with %d is still open", i, j)
				}
			}
		}
		for a, at := range rp.stopped {
			for i, rec := range w.Nodes[a].Recs {
				if i > at && rec.Done && rec.Err == nil {
					w.Violate("C23/round-after-stop", "party %d stopped before round %d and completed it", a, i)
				}
			}
		}
		// what was submitted before is still delivered, what was not is missed by everyone
		for b := range w.Nodes {
			for i, rec := range w.Nodes[b].Recs {
				if at, ok := rp.stopped[b]; ok && i >= at || !rec.Done {
					continue
				}
				all := true
				for _, at := range rp.stopped {
					all = all && i < at
				}
				if all && rec.Err != nil {
					w.Violate("C23/early-failure", "party %d round %d failed although no party stopped before it was over: %v", b, i, rec.Err)
				}
				if !all && rec.Err == nil {
					for a, at := range rp.stopped {
						if a != b && i >= at && rec.Checks[a] == 0 {
							w.Violate("C23/false-success", "party %d completed round %d without the payload of %d, which had stopped", b, i, a)
						}
					}
				}
			}
		}
		checkRounds(w, rp, nil, nil)
	})
	e.Nontriv = w.Steps > 20
}

func init() {
	register("C23", &Scenario{Name: "stop", Weight: 1, Gen: genStop, Run: runStop})
}
