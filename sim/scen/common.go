// Package scen holds the workloads and oracles: what the simulated parties do in each kind
// of run, and what must be true of it.
package scen

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"math/rand/v2"
	"sort"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"aaa.verif/sim/core"
	"aaa.verif/sim/ref"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	rsync "gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

// Scenario is one kind of run.
type Scenario struct {
	Name   string
	Weight int
	// Gen fills in a plan (Property, Scenario and Seed are set by the caller).
	Gen func(r *rand.Rand, p *core.Plan)
	// Directed returns hand-picked plans tried before the random ones.
	Directed func() []*core.Plan
	// Setup, if set, runs in a bubble of its own before the run.
	Setup func()
	// Run executes the plan inside a bubble.
	Run func(e *Env)
}

// Registry maps property ids to their scenarios.
var Registry = map[string][]*Scenario{}

// Register adds a scenario.
func Register(prop string, s *Scenario) { register(prop, s) }

func register(prop string, s *Scenario) { Registry[prop] = append(Registry[prop], s) }

// Env is the context of one run, which may use several worlds.
type Env struct {
	Plan    *core.Plan
	KeepLog bool
	worlds  []*World
	ch      *core.Chooser
	Nontriv bool
	extra   []core.Violation
	evHash  uint64
	lines   []string
	steps   int
	Stats   map[string]int
}

// NewEnv prepares a run.
func NewEnv(p *core.Plan) *Env {
	e := &Env{Plan: p, Stats: map[string]int{}}
	if p.Replay {
		e.ch = core.ReplayChooser(p.Sched)
	} else {
		e.ch = core.NewChooser(core.Mix(p.Seed, 1))
	}
	return e
}

// Chooser is the decision stream of the run.
func (e *Env) Chooser() *core.Chooser { return e.ch }

// V records a violation outside any world.
func (e *Env) V(class, format string, a ...interface{}) {
	e.extra = append(e.extra, core.Violation{Class: class, Detail: fmt.Sprintf(format, a...)})
}

// Log adds a line to the event log of what happens outside the worlds.
func (e *Env) Log(format string, a ...interface{}) {
	l := fmt.Sprintf(format, a...)
	e.evHash = core.Mix(e.evHash, core.HashString(l))
	e.steps++
	core.Progress.Add(1)
	if e.KeepLog && len(e.lines) < 20000 {
		e.lines = append(e.lines, l)
	}
}

// Result merges the results of the worlds.
func (e *Env) Result() *core.Result {
	res := &core.Result{Stats: map[string]int{}, Nontrivial: e.Nontriv}
	h, il := core.Mix(1, e.evHash), uint64(1)
	if e.steps > 0 {
		il = core.Mix(il, e.evHash)
	}
	res.Steps = e.steps
	res.Trace = e.lines
	for _, w := range e.worlds {
		r := w.Result()
		res.Violations = append(res.Violations, r.Violations...)
		res.Steps += r.Steps
		res.SimNS += r.SimNS
		h = core.Mix(h, core.HashString(r.Hash))
		il = core.Mix(il, core.HashString(r.Inter))
		for k, v := range r.Stats {
			res.Stats[k] += v
		}
		res.Trace = append(res.Trace, r.Trace...)
	}
	res.Violations = append(res.Violations, e.extra...)
	for k, v := range e.Stats {
		res.Stats[k] += v
	}
	for _, v := range res.Violations {
		h = core.Mix(h, core.HashString(v.Class+v.Detail))
	}
	res.Hash, res.Inter = fmt.Sprintf("%016x", h), fmt.Sprintf("%016x", il)
	res.Sched = append([]uint32(nil), e.ch.Log()...)
	var real []core.Violation
	for _, v := range res.Violations {
		if v.Class == "HARNESS" {
			res.HarnessErr += v.Detail + "\n"
		} else {
			real = append(real, v)
		}
	}
	res.Violations = real
	return res
}

// World is one simulated deployment.
type World struct {
	*core.Sim
	E     *Env
	P     *core.Plan
	N, T  int
	Nodes []*Node
	Eta   *big.Int
	H     ref.Point
	Tape  []*core.Frame
	// MayHang is set when the plan makes a party permanently silent.
	MayHang bool
	// Quit is closed when the run is over.
	Quit chan struct{}
}

// NewWorld builds a world for plan p.
func (e *Env) NewWorld(p *core.Plan) *World {
	w := &World{Sim: core.NewWith(p, e.ch), E: e, P: p, N: p.N, T: p.T, Quit: make(chan struct{})}
	w.KeepLog = e.KeepLog
	e.worlds = append(e.worlds, w)
	w.Eta = new(big.Int).Mod(new(big.Int).SetUint64(core.Mix(p.Seed, 5)), ref.N)
	w.Eta.Mul(w.Eta, new(big.Int).SetUint64(core.Mix(p.Seed, 6))).Add(w.Eta, big.NewInt(3))
	w.H = ref.Base(w.Eta)
	w.OnFrame = func(f *core.Frame) { w.Tape = append(w.Tape, f) }
	for i := 0; i < p.N; i++ {
		w.Nodes = append(w.Nodes, &Node{W: w, ID: i, Party: w.Party(i)})
	}
	return w
}

// StartAt is the agreed start time.
func (w *World) StartAt() time.Time {
	d := w.P.I["start_ms"]
	if d == 0 {
		d = 120000
	}
	return w.Start().Add(time.Duration(d) * time.Millisecond)
}

// Egf returns a commitment factory with base h = eta*G.
func (w *World) Egf() *commitment.ElGamalFactory {
	return commitment.NewElGamalFactory(ToCurve(w.H))
}

// Finish runs the scheduler to the end, judges progress and ends all goroutines after
// check has looked at the outcome.
func (w *World) Finish(check func()) {
	w.Run()
	if w.Hung && !w.MayHang {
		if w.OutOfSteps {
			w.Violate("hang", "no end within %d steps: %s", w.MaxSteps, w.Blocked())
		} else {
			w.Violate("hang", "no progress possible although every message was delivered or its connection reported broken: %s", w.Blocked())
		}
	}
	if check != nil {
		func() {
			defer func() {
				if r := recover(); r != nil {
					w.Violate("HARNESS", "oracle panicked: %v\n%s", r, stack())
				}
			}()
			check()
		}()
	}
	w.Kill()
	close(w.Quit)
	synctest.Wait()
	// who sleeps wakes up, finds out that it is over, and ends
	time.Sleep(200 * time.Second)
	synctest.Wait()
}

// Node is one party's application: it wraps the real sync server to observe rounds.
type Node struct {
	W     *World
	ID    int
	Party *core.Party
	Real  rsync.Server
	Recs  []*Rec
	Calls []*CallRec
	// Corrupt, if set, replaces what this (Byzantine) party submits to a round.
	Corrupt func(n *Node, rec *Rec, toSend [][]byte) [][]byte
	// FailRound, if set, makes a round fail towards the protocol (nil: no).
	FailRound func(rec *Rec) error
	// YieldInCheck adds scheduling points inside validation callbacks.
	YieldInCheck bool
	// MeasureAlloc records how much memory validation callbacks allocate.
	MeasureAlloc bool
	stopped      bool
	mapMx        sync.Mutex
}

// Rec is one round as one party saw it.
type Rec struct {
	Call     int
	Index    int // rounds of this party so far
	InCall   int // rounds of this call so far
	Name     string
	Sent     [][]byte
	Got      map[int][]byte
	Kept     map[int][]byte // the very slices the callback was given
	Checks   map[int]int
	Rejected map[int]string
	Err      error
	Miss     []int
	HasMiss  bool
	Begin    int64
	End      int64
	Done     bool
	Injected bool
	Alloc    uint64 // most memory a validation callback allocated
	AllocFor int    // for a payload of that size
	running  atomic.Int32
}

// CallRec is one API call as one party saw it.
type CallRec struct {
	Name  string
	Index int
	Err   error
	Done  bool
	Recs  []*Rec
}

// Good tells how many peers' payloads the party accepted in the round.
func (r *Rec) Good() int {
	g := 0
	for p := range r.Got {
		if r.Rejected[p] == "" {
			g++
		}
	}
	return g
}

// NewServer gives the node a real sync server on the simulated network.
func (n *Node) NewServer(start time.Time, dur time.Duration) {
	n.Real = rsync.NewServer(uint16(n.ID), uint16(n.W.N), start, dur, n.W.Net(n.ID))
}

// NextEpoch replaces the real server by a fresh one (after a failed operation).
func (n *Node) NextEpoch(epoch int) {
	n.Stop()
	n.stopped = false
	n.Real = rsync.NewServer(uint16(n.ID), uint16(n.W.N), n.W.StartAt().Add(time.Duration(epoch)*10*time.Minute), time.Hour, n.W.NetEpoch(n.ID, epoch))
	n.Start()
}

// Start starts the real server.
func (n *Node) Start() { n.Party.CheckAlive(); n.Real.Start() }

// Stop stops the real server.
func (n *Node) Stop() {
	n.Party.CheckAlive()
	if !n.stopped {
		n.stopped = true
		n.Real.Stop()
	}
	n.Party.CheckAlive()
}

// Missing extracts the blamed parties from an error.
func Missing(err error) ([]int, bool) {
	var m interface{ Missing() []uint16 }
	if err == nil || !errors.As(err, &m) {
		return nil, false
	}
	set := map[int]bool{}
	var out []int
	for _, p := range m.Missing() {
		if !set[int(p)] {
			set[int(p)] = true
			out = append(out, int(p))
		}
	}
	sort.Ints(out)
	return out, true
}

// Round runs a round of the real server and records it.
func (n *Node) Round(toSend [][]byte, check func(uint16, []byte) error) error {
	n.Party.CheckAlive()
	rec := &Rec{Call: n.Party.Calls(), Index: len(n.Recs), Name: n.Party.CallName(), Got: map[int][]byte{}, Kept: map[int][]byte{},
		Checks: map[int]int{}, Rejected: map[int]string{}, Begin: n.W.Now()}
	if k := len(n.Calls); k > 0 {
		c := n.Calls[k-1]
		rec.InCall = len(c.Recs)
		c.Recs = append(c.Recs, rec)
	}
	for _, b := range toSend {
		rec.Sent = append(rec.Sent, append([]byte(nil), b...))
	}
	n.Recs = append(n.Recs, rec)
	if n.Corrupt != nil {
		toSend = n.Corrupt(n, rec, toSend)
	}
	err := n.Real.Round(toSend, func(pid uint16, data []byte) error {
		n.Party.CheckAlive()
		if rec.Done {
			n.W.Violate("C01/callback-after-round", "party %d round %d: the callback is called for the payload of %d after the round has returned", n.ID, rec.Index, pid)
		}
		// callers note in their callbacks what they were given, without a lock
		if rec.running.Add(1) > 1 {
			n.W.Violate("C01/callbacks-overlap", "party %d round %d: the callback is called for the payload of %d while it is at work on another", n.ID, rec.Index, pid)
		}
		defer rec.running.Add(-1)
		n.mapMx.Lock()
		rec.Checks[int(pid)]++
		got := append([]byte(nil), data...)
		rec.Got[int(pid)], rec.Kept[int(pid)] = got, data
		n.mapMx.Unlock()
		if n.YieldInCheck {
			n.Party.Yield()
			n.Party.CheckAlive()
			if string(got) != string(data) {
				n.W.Violate("C01/payload-changed-under-callback", "party %d round %d: the payload of %d changed while it was being validated", n.ID, rec.Index, pid)
			}
		}
		var before uint64
		steps := n.W.Steps
		if n.MeasureAlloc {
			before = totalAlloc()
		}
		err := check(pid, data)
		if n.MeasureAlloc && steps == n.W.Steps { // nobody else ran in between
			if d := totalAlloc() - before; d > rec.Alloc {
				rec.Alloc, rec.AllocFor = d, len(data)
			}
		}
		n.Party.CheckAlive()
		if err != nil {
			n.mapMx.Lock()
			rec.Rejected[int(pid)] = err.Error()
			n.mapMx.Unlock()
		}
		return err
	})
	n.Party.CheckAlive()
	// A typed nil would be reported as an error by every caller: look at it as callers do.
	rec.Err = err
	rec.Miss, rec.HasMiss = Missing(err)
	rec.End = n.W.Now()
	rec.Done = true
	if n.FailRound != nil && err == nil {
		if ferr := n.FailRound(rec); ferr != nil {
			n.W.Count("fault.failed_round")
			rec.Err, rec.Injected = ferr, true
			return ferr
		}
	}
	// The caller may reuse its buffers once Round has returned.
	if n.W.P.I["reuse"] == 1 {
		for _, b := range toSend {
			for i := range b {
				b[i] = 0xEE
			}
		}
	}
	return err
}

// Call runs one API call, recording it.
func (n *Node) Call(name string, f func() error) *CallRec {
	c := &CallRec{Name: name}
	n.Party.Call(name, func() {
		c.Index = n.Party.Calls()
		n.Calls = append(n.Calls, c)
		c.Err = f()
		n.Party.CheckAlive()
		c.Done = true
	})
	msg := "ok"
	if c.Err != nil {
		msg = c.Err.Error()
		if len(msg) > 160 {
			msg = msg[:160]
		}
	}
	n.W.Event("p%d %s -> %s", n.ID, name, msg)
	return c
}

// Spawn starts a party whose server is started at once.
func (w *World) Spawn(id int, f func(n *Node)) {
	n := w.Nodes[id]
	w.NeedStart = true
	if n.Real == nil {
		n.NewServer(w.StartAt(), time.Hour)
	}
	w.Go(id, func(p *core.Party) {
		p.Yield()
		n.Start()
		f(n)
	})
}

// ToCurve converts to the repository's representation, through its decoder.
func ToCurve(p ref.Point) curve.Point {
	g := curve.NewSecp256k1Group()
	if p.Inf {
		return g.Neutral()
	}
	q, err := g.Decode(newReader(ref.Enc(p)))
	if err != nil {
		panic(fmt.Sprintf("harness: the repository rejects the encoding of a group element: %v", err))
	}
	return q
}

// FromCurve converts from the repository's representation, through its encoder.
func FromCurve(p curve.Point) (ref.Point, error) {
	if p == nil {
		return ref.O, fmt.Errorf("nil point")
	}
	var b sliceWriter
	if err := curve.NewSecp256k1Group().Encode(p, &b); err != nil {
		return ref.O, err
	}
	q, rest, err := ref.Parse(b)
	if err == nil && len(rest) != 0 {
		err = fmt.Errorf("trailing bytes")
	}
	return q, err
}

// ToEG converts a reference commitment, through the repository's decoder.
func ToEG(e ref.EG) *commitment.ElGamal {
	c := &commitment.ElGamal{}
	if err := c.Decode(newReader(ref.EncEG(e))); err != nil {
		panic(fmt.Sprintf("harness: the repository rejects the encoding of a commitment: %v", err))
	}
	return c
}

// FromEG converts to a reference commitment.
func FromEG(c *commitment.ElGamal) (ref.EG, error) {
	var b sliceWriter
	if err := c.Encode(&b); err != nil {
		return ref.EG{}, err
	}
	e, rest, err := ref.ParseEG(b)
	if err == nil && len(rest) != 0 {
		err = fmt.Errorf("trailing bytes")
	}
	return e, err
}

// ---- generators ----

// GenNet draws the behaviour of the network.
func GenNet(r *rand.Rand, p *core.Plan) {
	n := core.Net{}
	n.Seg = pick(r, 0, 0, 1, 1, 1, 2)
	n.BufCap = pick(r, 4096, 4096, 65536, 64, 16)
	n.Window = pick(r, 0, 0, 0, 4096, 256, 64)
	n.EarlyPush = pickF(r, 0, 0.2, 0.7)
	if r.IntN(3) > 0 {
		n.LatMin = int64(pick(r, 1, 10, 1000, 50000)) * 1000
		n.LatJit = int64(pick(r, 0, 10, 1000, 500000)) * 1000
	}
	n.EOFWith = r.IntN(2) == 0
	if r.IntN(6) == 0 {
		n.Fine = pick(r, 1, 2, 4, 8, 8)
	}
	p.Net = n
	p.Policy = r.IntN(6)
}

// GenNetLight is GenNet without the settings that multiply the number of steps.
func GenNetLight(r *rand.Rand, p *core.Plan) {
	GenNet(r, p)
	if p.Net.Seg == 2 {
		p.Net.Seg = 1
	}
	p.Net.BufCap = pick(r, 4096, 65536, 1024)
	p.Net.Window = pick(r, 0, 0, 4096, 1024)
}

func pick(r *rand.Rand, xs ...int) int          { return xs[r.IntN(len(xs))] }
func pickF(r *rand.Rand, xs ...float64) float64 { return xs[r.IntN(len(xs))] }

// Scalar draws a scalar below the group order, extremes included.
func Scalar(r *rand.Rand) *big.Int {
	switch r.IntN(12) {
	case 0:
		return new(big.Int)
	case 1:
		return big.NewInt(1)
	case 2:
		return new(big.Int).Sub(ref.N, big.NewInt(1))
	case 3:
		return big.NewInt(int64(r.IntN(1000)))
	}
	v := Wide(r, 40)
	return v.Mod(v, ref.N)
}

// Wide draws an integer of up to n random bytes.
func Wide(r *rand.Rand, n int) *big.Int {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	return new(big.Int).SetBytes(b)
}

// Bytes draws n bytes determined by the arguments.
func Bytes(n int, seed ...uint64) []byte {
	r := core.NewRand(seed...)
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		v := r.Uint64()
		for j := i; j < n && j < i+8; j++ {
			b[j] = byte(v >> (8 * (j - i)))
		}
	}
	return b
}

// Subset draws a subset of [0,n) of size k.
func Subset(r *rand.Rand, n, k int) []int {
	s := r.Perm(n)[:k]
	sort.Ints(s)
	return s
}

type sliceWriter []byte

func (s *sliceWriter) Write(b []byte) (int, error) { *s = append(*s, b...); return len(b), nil }

func le32(v uint32) []byte { b := make([]byte, 4); binary.LittleEndian.PutUint32(b, v); return b }

// BiasRand makes some draws of a party return extreme but legal bytes.
func BiasRand(w *World, id int, per int) {
	if per <= 0 {
		return
	}
	r := core.NewRand(w.P.Seed, 99, uint64(id))
	nm1 := new(big.Int).Sub(ref.N, big.NewInt(1)).Bytes()
	w.Party(id).Bias = func(b []byte) {
		if len(b) != 32 || r.IntN(per) != 0 {
			return
		}
		switch r.IntN(5) {
		case 0, 1:
			for i := range b {
				b[i] = 0
			}
		case 4:
			copy(b, ref.N.Bytes())
		case 2:
			copy(b, nm1)
		case 3:
			for i := range b {
				b[i] = 0
			}
			b[31] = 1
		}
	}
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func contains(a []int, x int) bool {
	for _, v := range a {
		if v == x {
			return true
		}
	}
	return false
}
