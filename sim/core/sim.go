// Package core is the simulator: a seeded cooperative scheduler inside a testing/synctest
// bubble, a simulated TCP-like network, fault injection and per-party randomness.
//
// Every network operation (and every API call a workload makes) parks the calling
// goroutine. The scheduler waits until every goroutine of the bubble is durably blocked,
// looks at the parked operations in a canonical order, lets the chooser pick one that can
// proceed, performs its effect and releases that goroutine. Time is the bubble's clock: it
// moves by a fixed amount per step and jumps to the next timer when nothing can proceed.
package core

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand/v2"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"aaa.verif/sim/detrand"
	simsync "aaa.verif/sim/simsync"
	"gitlab.com/alephledger/core-go/pkg/network"
)

var (
	errKilled  = errors.New("sim: process is gone")
	errReset   = errors.New("sim: connection reset by peer")
	errPipe    = errors.New("sim: broken pipe")
	errClosed  = errors.New("sim: use of closed connection")
	errRefused = errors.New("sim: connection refused")
	errAccept  = errors.New("sim: accept failed")
	// ErrEntropy is returned by the randomness seam when a draw is made to fail.
	ErrEntropy = errors.New("sim: entropy source failed")
)

const inf = int64(1) << 62

type opResult struct {
	n    int
	err  error
	conn *End
	kill bool
}

type op struct {
	party, peer int
	kind        string
	end         *End
	pipe        *pipe
	buf         []byte
	progress    int
	seq         int
	readyAt     int64
	failing     bool
	epoch       int
	label       string
	name        string // of the goroutine, if it is known
	done        chan opResult
}

type seg struct {
	data []byte
	at   int64
}

type pipe struct {
	from, to int
	primary  bool
	epoch    int
	wbuf     []byte
	segs     []seg
	inflight int
	lastAt   int64
	wireOff  int
	fin      bool // EOF after segs
	rst      bool // reset after segs
	endAt    int64
	broken   bool // writes fail
	werr     bool // buffered bytes were lost: the next flush fails
	rclosed  bool
	taken    []byte // everything Read returned so far
	ended    bool   // a Read returned EOF or an error
	firstAt  int64  // when the first byte past the handshake reached the wire (0: never)
	hsDone   int64  // when the reader had the complete handshake
	ghost    int    // writes that still "succeed" after the reader is gone
	failed   []int  // API calls of the sender in which a write or flush reported an error
	fp       frameParser
}

// End is one endpoint of a simulated connection; it implements network.Connection.
type End struct {
	s           *Sim
	id          int
	owner, peer int
	in, out     *pipe
	closed      bool
	given       bool // Dial or Listen has returned it
	limbo       bool // belongs to a process that is gone
	hello       []byte
}

// Frame is one message of pkg/sync as seen on the wire.
type Frame struct {
	From, To int
	Idx      int    // position on this connection
	ID       uint16 // claimed sender
	Round    int64  // claimed round
	Payload  []byte
	Short    bool // body shorter than the 10-byte header
	Step     int
	At       int64
	Call     string // API call the sender was in
	CallIdx  int
}

// Party is one simulated process.
type Party struct {
	S          *Sim
	ID         int
	calls      int // API calls started
	ops        int // operations in the current call
	callName   string
	Dead       bool
	done       bool
	started    bool
	rng        *rand.ChaCha8
	Draws      int
	FailDraw   map[int]bool
	FailAlways bool
	EntropyHit bool
	FailStep   int // step of the first failed draw
	FailFrames int // frames this party had put on the wire by then
	Frames     int
	DrawLog    []Draw
	// Bias may overwrite drawn bytes (a legal but unusual outcome of the source).
	Bias      func(b []byte)
	acceptQ   map[int][]*End // per epoch
	listening int
	pair      map[int]int // dial attempts per peer
}

// Draw is one read of randomness.
type Draw struct {
	Call int
	B    []byte
}

// Sim is one simulated world.
type Sim struct {
	mu       sync.Mutex
	pending  []*op
	wake     chan struct{}
	killing  bool
	names    map[int64]*goroutine
	end      int64
	seq      int
	ch       *Chooser
	Plan     *Plan
	start    time.Time
	Steps    int
	MaxSteps int
	MaxSim   int64 // ns
	parties  []*Party
	gids     map[int64]int
	pipes    []*pipe
	conns    []*End
	Stats    map[string]int
	viols    []Violation
	evHash   uint64
	ilHash   uint64
	KeepLog  bool
	logLines []string
	used     map[int]bool // faults fired
	faultN   map[int]int
	setup    *rand.ChaCha8
	polPrio  map[string]int
	starve   int
	last     string

	// OnFrame observes every complete frame put on the wire (after Filter).
	OnFrame func(f *Frame)
	// Filter, if set for a party, replaces its outgoing frames: it returns the raw bodies
	// to send instead (nil: drop), or raw bytes via RawBytes.
	Filter map[int]func(f *Frame) []Raw
	// OnCrash observes crashes (called with the simulator locked).
	OnCrash func(id int)
	// Hung is set when the run ended because nothing could make progress.
	Hung bool
	// OutOfSteps is set when the run was cut off.
	OutOfSteps bool
	isFine     bool
	// NeedStart is set when the parties begin by connecting to each other.
	NeedStart bool
	limbo     int
	up        bool
	// AllowDead lets the scheduler ignore a party that is not finished.
	Ignore map[int]bool
}

// Progress counts what the simulators of this process have done.
var Progress atomic.Int64

// Raw is bytes to put on the wire: a frame body (the length prefix is added) or raw bytes.
type Raw struct {
	Body  []byte
	Bytes []byte
}

// New returns a simulator for plan. It must be called inside a bubble.
func New(p *Plan) *Sim {
	if p.Replay {
		return NewWith(p, ReplayChooser(p.Sched))
	}
	return NewWith(p, NewChooser(Mix(p.Seed, 1)))
}

// NewWith is New with decisions taken from ch (several worlds of one run share it).
func NewWith(p *Plan, ch *Chooser) *Sim {
	s := &Sim{
		Plan: p, wake: make(chan struct{}, 1), start: time.Now(), gids: map[int64]int{},
		Stats: map[string]int{}, MaxSteps: 400000, MaxSim: int64(2 * time.Hour),
		used: map[int]bool{}, faultN: map[int]int{}, Filter: map[int]func(*Frame) []Raw{}, Ignore: map[int]bool{},
		evHash: 14695981039346656037, ilHash: 14695981039346656037, polPrio: map[string]int{},
	}
	s.ch = ch
	s.setup = chacha(Mix(p.Seed, 2), 1<<20)
	s.starve = int(Mix(p.Seed, 3) % uint64(max(p.N, 1)))
	for i := 0; i < p.N; i++ {
		s.parties = append(s.parties, &Party{S: s, ID: i, rng: chacha(Mix(p.Seed, 2), uint64(i)), FailDraw: map[int]bool{}, pair: map[int]int{}, acceptQ: map[int][]*End{}})
	}
	detrand.Source = s.randRead
	simsync.Begin()
	if p.Net.Fine > 0 {
		s.fine()
	} else {
		simsync.SetHooks(nil)
	}
	return s
}

func chacha(a, b uint64) *rand.ChaCha8 {
	var key [32]byte
	for i := 0; i < 4; i++ {
		v := Mix(a, b, uint64(i))
		for j := 0; j < 8; j++ {
			key[8*i+j] = byte(v >> (8 * j))
		}
	}
	return rand.NewChaCha8(key)
}

// Chooser gives access to the run's decision stream.
func (s *Sim) Chooser() *Chooser { return s.ch }

// Now is the simulated time since the start of the run, in ns.
func (s *Sim) Now() int64 { return int64(time.Since(s.start)) }

// elapsed is the simulated time the run took.
func (s *Sim) elapsed() int64 {
	if s.killing {
		return s.end
	}
	return s.Now()
}

// Start is the instant the run began.
func (s *Sim) Start() time.Time { return s.start }

// Party returns party i.
func (s *Sim) Party(i int) *Party { return s.parties[i] }

// Violations returns what was reported so far.
func (s *Sim) Violations() []Violation { return s.viols }

// Violate records a violation.
func (s *Sim) Violate(class, format string, args ...interface{}) {
	// what is formatted may be an error of the code under test, whose method may be a
	// scheduling point
	text := fmt.Sprintf(format, args...)
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.viols) < 20 {
		s.viols = append(s.viols, Violation{class, text, s.Steps, s.Now()})
	}
}

// Count increments a statistic.
func (s *Sim) Count(name string) { s.CountN(name, 1) }

// CountN adds to a statistic.
func (s *Sim) CountN(name string, n int) {
	s.mu.Lock()
	s.Stats[name] += n
	s.mu.Unlock()
}

// Locked runs f while the scheduler is kept out.
func (s *Sim) Locked(f func()) {
	s.mu.Lock()
	defer s.mu.Unlock()
	f()
}

func (s *Sim) event(format string, args ...interface{}) {
	line := fmt.Sprintf(format, args...)
	h := s.evHash
	for i := 0; i < len(line); i++ {
		h = (h ^ uint64(line[i])) * 1099511628211
	}
	h = (h ^ uint64(s.Now())) * 1099511628211
	s.evHash = h
	if s.KeepLog && len(s.logLines) < 20000 {
		s.logLines = append(s.logLines, fmt.Sprintf("%d t=%dus %s", s.Steps, s.Now()/1000, line))
	}
}

// Event adds a line to the event log (and its hash). Call it only from the scheduler or a
// party that is running.
func (s *Sim) Event(format string, args ...interface{}) {
	line := fmt.Sprintf(format, args...)
	s.mu.Lock()
	s.event("%s", line)
	s.mu.Unlock()
}

// ---- goroutine attribution ----

func gid() (int64, int64) {
	var arr [4096]byte
	buf := arr[:]
	n := runtime.Stack(buf, false)
	for n == len(buf) {
		buf = make([]byte, 8*len(buf))
		n = runtime.Stack(buf, false)
	}
	b := buf[:n]
	id := num(b[len("goroutine "):])
	parent := int64(-1)
	if i := bytes.LastIndex(b, []byte(" in goroutine ")); i >= 0 {
		parent = num(b[i+len(" in goroutine "):])
	}
	return id, parent
}

func num(b []byte) int64 {
	var v int64
	for _, c := range b {
		if c < '0' || c > '9' {
			break
		}
		v = v*10 + int64(c-'0')
	}
	return v
}

func (s *Sim) caller() *Party {
	id, parent := gid()
	s.mu.Lock()
	defer s.mu.Unlock()
	if p, ok := s.gids[id]; ok {
		return s.parties[p]
	}
	if p, ok := s.gids[parent]; ok {
		s.gids[id] = p
		return s.parties[p]
	}
	return nil
}

// Current is the party the calling goroutine belongs to, or -1.
func (s *Sim) Current() int {
	if p := s.caller(); p != nil {
		return p.ID
	}
	return -1
}

// Adopt makes the calling goroutine one of party id.
func (s *Sim) Adopt(id int) {
	g, _ := gid()
	s.mu.Lock()
	s.gids[g] = id
	s.mu.Unlock()
}

func (s *Sim) randRead(b []byte) (int, error) {
	p := s.caller()
	if p == nil {
		s.mu.Lock()
		defer s.mu.Unlock()
		return s.setup.Read(b)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	p.Draws++
	if p.FailAlways || p.FailDraw[p.Draws] {
		if !p.EntropyHit {
			p.FailStep, p.FailFrames = s.Steps, p.Frames
		}
		p.EntropyHit = true
		s.Stats["fault.entropy"]++
		return 0, ErrEntropy
	}
	n, err := p.rng.Read(b)
	if p.Bias != nil {
		p.Bias(b)
	}
	if len(p.DrawLog) < 20000 {
		p.DrawLog = append(p.DrawLog, Draw{p.calls, append([]byte(nil), b...)})
	}
	return n, err
}

// RestartRand re-seeds a party's randomness (same stream for same salt).
func (p *Party) RestartRand(salt uint64) { p.rng = chacha(Mix(p.S.Plan.Seed, 2, salt), uint64(p.ID)) }

// ---- scheduling points between statements ----

type goroutine struct {
	name     string
	children int
}

// fineSteps is the number of steps after which there are no more scheduling points between
// statements (some loop has very many iterations).
const fineSteps = 60000

// fine makes the scheduling points between the statements of the code under test take effect.
func (s *Sim) fine() {
	s.names = map[int64]*goroutine{}
	s.isFine = true
	seed, share, deep := Mix(s.Plan.Seed, 6), uint64(s.Plan.Net.Fine), s.Plan.I["deep"] > 0
	simsync.SetHooks(&simsync.Hooks{
		Active: func(site int) bool { return (deep || site < simsync.Deep) && Mix(seed, uint64(site))%share == 0 },
		Yield: func(site int) {
			id, _ := gid()
			s.mu.Lock()
			p, ok := s.gids[id]
			g := s.names[id]
			ok = ok && s.isFine && g != nil && !s.killing && !s.parties[p].Dead
			s.mu.Unlock()
			if ok {
				s.park(&op{party: p, peer: -1, kind: "yield", label: strconv.Itoa(site) + "/" + g.name})
			}
		},
		Spawn: func() string {
			id, _ := gid()
			s.mu.Lock()
			defer s.mu.Unlock()
			g := s.names[id]
			if g == nil {
				return ""
			}
			g.children++
			return g.name + "." + strconv.Itoa(g.children)
		},
		Adopt: func(name string) {
			s.caller()
			id, _ := gid()
			s.mu.Lock()
			s.names[id] = &goroutine{name: name}
			s.mu.Unlock()
		},
	})
}

// Name gives the calling goroutine a name, unless nothing needs it.
func (s *Sim) Name(name string) {
	if s.names != nil {
		id, _ := gid()
		s.mu.Lock()
		s.names[id] = &goroutine{name: name}
		s.mu.Unlock()
	}
}

// ---- parking ----

func (s *Sim) park(o *op) opResult {
	s.mu.Lock()
	if s.killing || (o.end != nil && o.end.limbo) || (o.party >= 0 && s.parties[o.party].Dead) {
		s.mu.Unlock()
		return s.killed(o)
	}
	o.done = make(chan opResult, 1)
	if s.names != nil {
		id, _ := gid()
		if g := s.names[id]; g != nil {
			o.name = g.name
		}
	}
	s.pending = append(s.pending, o)
	s.mu.Unlock()
	select {
	case s.wake <- struct{}{}:
	default:
	}
	r := <-o.done
	if r.kill {
		return s.killed(o)
	}
	return r
}

// killed is the outcome of an operation of a process that is gone: its goroutines must
// unwind without disturbing anyone. Connecting "succeeds" with a connection to nowhere, so
// that start-up code comes to an end instead of retrying for ever.
func (s *Sim) killed(o *op) opResult {
	switch o.kind {
	case "call":
		runtime.Goexit()
	case "dial":
		return opResult{conn: &End{s: s, owner: o.party, peer: o.peer, limbo: true}}
	case "listen":
		s.mu.Lock()
		s.limbo++
		pid := s.limbo % max(len(s.parties), 1)
		s.mu.Unlock()
		return opResult{conn: &End{s: s, owner: o.party, peer: pid, limbo: true, hello: []byte{byte(pid), byte(pid >> 8)}}}
	case "write":
		return opResult{n: len(o.buf)}
	case "flush", "close", "yield":
		return opResult{}
	}
	if o.end != nil && len(o.end.hello) > 0 {
		n := copy(o.buf, o.end.hello)
		o.end.hello = o.end.hello[n:]
		return opResult{n: n}
	}
	return opResult{err: errKilled}
}

// CheckAlive ends the calling goroutine if its process is gone.
func (p *Party) CheckAlive() {
	p.S.mu.Lock()
	gone := p.S.killing || p.Dead
	p.S.mu.Unlock()
	if gone {
		runtime.Goexit()
	}
}

// Gone tells whether the process has crashed or the run is over.
func (p *Party) Gone() bool {
	p.S.mu.Lock()
	defer p.S.mu.Unlock()
	return p.S.killing || p.Dead
}

// Go starts the main goroutine of a party.
func (s *Sim) Go(id int, f func(p *Party)) {
	p := s.parties[id]
	p.started = true
	go func() {
		g, _ := gid()
		s.mu.Lock()
		s.gids[g] = id
		if s.names != nil {
			s.names[g] = &goroutine{name: "m"}
		}
		s.mu.Unlock()
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				if !p.Gone() {
					s.RecordPanic(fmt.Sprint(r), st)
				}
			}
			s.mu.Lock()
			p.done = true
			s.mu.Unlock()
			select {
			case s.wake <- struct{}{}:
			default:
			}
		}()
		f(p)
	}()
}

// PanicClass builds the violation class of a panic from its message and stack, or ""
// when the panic comes from the harness.
func PanicClass(msg, stack string) string {
	fn := ""
	if i := strings.Index(stack, "\npanic("); i >= 0 {
		stack = stack[i+1:] // above it are the handlers
	}
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "gitlab.com/alephledger/threshold-ecdsa/") || IsProgram(l) {
			fn = l
			break
		}
		if strings.HasPrefix(l, "aaa.verif/") && !strings.HasPrefix(l, "aaa.verif/sim/simsync.") && !strings.Contains(l, "(*Sim).Go.func1") && !strings.Contains(l, "RecordPanic") {
			// a harness frame above any repository frame: callbacks such as check functions
			return ""
		}
	}
	if fn == "" {
		return ""
	}
	return "panic"
}

// IsProgram tells whether a frame belongs to a simulated copy of a program in cmd/.
func IsProgram(frame string) bool {
	l, ok := strings.CutPrefix(frame, "aaa.verif/sim/gen/")
	if !ok {
		return false
	}
	l, _, _ = strings.Cut(l, "(")
	return !strings.Contains(l, "/") // not the replaced packages below it
}

// RecordPanic turns a recovered panic into a violation (or a harness error).
func (s *Sim) RecordPanic(msg, stack string) {
	if strings.Contains(msg, "harness:") || PanicClass(msg, stack) == "" {
		s.Violate("HARNESS", "panic in harness: %s\n%s", msg, stack)
		return
	}
	fn := ""
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "gitlab.com/alephledger/threshold-ecdsa/") || IsProgram(l) {
			fn = l
			if i := strings.LastIndex(fn, "("); i > 0 {
				fn = fn[:i]
			}
			break
		}
	}
	s.Violate("panic", "honest process panicked: %s in %s", msg, fn)
}

// Call runs one API call of a party's workload: it parks first, so that the scheduler
// decides when the call begins.
func (p *Party) Call(name string, f func()) {
	p.S.park(&op{party: p.ID, peer: -1, kind: "call", label: name})
	f()
	p.CheckAlive()
}

// Yield is a scheduling point without a new API call.
func (p *Party) Yield() { p.S.park(&op{party: p.ID, peer: -1, kind: "yield"}) }

// CallName is the API call in progress.
func (p *Party) CallName() string { return p.callName }

// Calls is the number of API calls begun.
func (p *Party) Calls() int { return p.calls }

// ---- network.Server ----

type netServer struct {
	s          *Sim
	pid, epoch int
}

// Net returns party pid's view of the network.
func (s *Sim) Net(pid int) network.Server { return &netServer{s, pid, 0} }

// NetEpoch is a separate network of the same parties (servers started anew after a failure).
func (s *Sim) NetEpoch(pid, epoch int) network.Server { return &netServer{s, pid, epoch} }

func (n *netServer) Dial(pid uint16) (network.Connection, error) {
	r := n.s.park(&op{party: n.pid, peer: int(pid), kind: "dial", epoch: n.epoch})
	if r.err != nil {
		return nil, r.err
	}
	return r.conn, nil
}

func (n *netServer) Listen() (network.Connection, error) {
	r := n.s.park(&op{party: n.pid, peer: -1, kind: "listen", epoch: n.epoch})
	if r.err != nil {
		return nil, r.err
	}
	return r.conn, nil
}

func (n *netServer) Stop() {}

func (e *End) Read(b []byte) (int, error) {
	r := e.s.park(&op{party: e.owner, peer: e.peer, kind: "read", end: e, pipe: e.in, buf: b})
	return r.n, r.err
}

func (e *End) Write(b []byte) (int, error) {
	r := e.s.park(&op{party: e.owner, peer: e.peer, kind: "write", end: e, pipe: e.out, buf: b})
	return r.n, r.err
}

// Flush pushes buffered bytes onto the wire.
func (e *End) Flush() error {
	return e.s.park(&op{party: e.owner, peer: e.peer, kind: "flush", end: e, pipe: e.out}).err
}

// Close closes the endpoint; unflushed bytes are lost.
func (e *End) Close() error {
	return e.s.park(&op{party: e.owner, peer: e.peer, kind: "close", end: e}).err
}

// Peer is the party at the other end.
func (e *End) Peer() int { return e.peer }

// Connect creates an established connection between two parties (no handshake).
func (s *Sim) Connect(a, b int) (*End, *End) {
	p1 := &pipe{from: a, to: b}
	p2 := &pipe{from: b, to: a}
	s.pipes = append(s.pipes, p1, p2)
	ea := &End{s: s, id: len(s.conns), owner: a, peer: b, out: p1, in: p2}
	eb := &End{s: s, id: len(s.conns) + 1, owner: b, peer: a, out: p2, in: p1}
	s.conns = append(s.conns, ea, eb)
	p1.primary = true
	p1.fp.raw = true
	return ea, eb
}

// Open lists the peers of the connections a party has been given and has not closed.
func (s *Sim) Open(id int) (peers []int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, e := range s.conns {
		if e.owner == id && !e.closed && !e.limbo && e.given {
			peers = append(peers, e.peer)
		}
	}
	return peers
}

// Incoming describes what reached party "to" on its data connection from party "from".
type Incoming struct {
	Bytes   []byte // everything read plus everything still queued, handshake included
	Broken  bool   // the stream has ended or will end after Bytes
	FirstAt int64  // when the sender put its first byte past the handshake on the wire, -1: never
	HSDone  int64  // when the receiver had the handshake, -1: never
	SendErr bool   // the sender's end is broken: its writes may have failed
	Failed  []int  // API calls of the sender (from 1) in which a write or flush reported an error
}

// In returns the state of the stream from->to; ok is false when there is none.
func (s *Sim) In(from, to int) (in Incoming, ok bool) { return s.in(from, to, true) }

// State is In without the bytes.
func (s *Sim) State(from, to int) (in Incoming, ok bool) { return s.in(from, to, false) }

func (s *Sim) in(from, to int, bytes bool) (in Incoming, ok bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for i := len(s.pipes) - 1; i >= 0; i-- {
		p := s.pipes[i]
		if !p.primary || p.from != from || p.to != to {
			continue
		}
		if bytes {
			in.Bytes = append(in.Bytes, p.taken...)
			for _, g := range p.segs {
				in.Bytes = append(in.Bytes, g.data...)
			}
		}
		in.Broken = p.fin || p.rst || p.ended || p.broken
		in.SendErr = p.broken || p.rclosed
		in.Failed = append([]int(nil), p.failed...)
		in.FirstAt, in.HSDone = p.firstAt-1, p.hsDone-1
		if p.hsDone > 0 {
			in.HSDone = p.hsDone
		}
		return in, true
	}
	return in, false
}

// ---- wire ----

func (p *pipe) window(s *Sim) int {
	if s.Plan.Net.Window <= 0 {
		return 1 << 30
	}
	return s.Plan.Net.Window - p.inflight
}

func (s *Sim) bufCap() int {
	if s.Plan.Net.BufCap <= 0 {
		return 4096
	}
	return s.Plan.Net.BufCap
}

// emit puts bytes on the wire, applying the byte-offset faults of this stream.
func (s *Sim) emit(p *pipe, b []byte) {
	if len(b) == 0 {
		return
	}
	if p.rclosed || p.rst || p.fin {
		return
	}
	now := s.Now()
	for len(b) > 0 {
		n := len(b)
		stallUntil := int64(0)
		var cut *Fault
		if p.primary {
			for i := range s.Plan.Faults {
				f := &s.Plan.Faults[i]
				if f.From != p.from || f.To != p.to || s.used[i] {
					continue
				}
				switch f.Kind {
				case "reset", "stall":
					if f.N != p.epoch {
						continue
					}
					off := f.Off
					if f.Kind == "reset" && s.NeedStart && off < 2 {
						off = 2 // breaking the handshake would be a failed start-up
					}
					if off <= p.wireOff {
						s.used[i] = true
						s.Stats["fault."+f.Kind]++
						if f.Kind == "reset" {
							cut = f
						} else {
							d := f.Dur
							if d >= inf {
								stallUntil = inf
							} else {
								stallUntil = max(stallUntil, now+d)
							}
						}
					} else if off < p.wireOff+n {
						n = off - p.wireOff
					}
				}
			}
		}
		if cut != nil {
			s.event("fault reset %d->%d at byte %d (%s)", p.from, p.to, p.wireOff, cut.Mode)
			s.breakPipe(p, cut.Mode)
			return
		}
		if stallUntil > 0 {
			s.event("fault stall %d->%d at byte %d", p.from, p.to, p.wireOff)
			p.lastAt = max(p.lastAt, stallUntil)
			continue
		}
		at := max(now+s.latency(), p.lastAt)
		p.lastAt = at
		p.segs = append(p.segs, seg{append([]byte(nil), b[:n]...), at})
		p.inflight += n
		p.wireOff += n
		if p.firstAt == 0 && p.wireOff > 2 {
			p.firstAt = now + 1
		}
		b = b[n:]
	}
}

func (s *Sim) latency() int64 {
	l := s.Plan.Net.LatMin
	if j := s.Plan.Net.LatJit; j > 0 {
		l += int64(s.ch.Uniform(8)) * j / 7
	}
	return l
}

// breakPipe severs the stream from p.from to p.to.
func (s *Sim) breakPipe(p *pipe, mode string) {
	p.broken = true
	p.werr = p.werr || len(p.wbuf) > 0
	p.wbuf = nil
	p.ghost = s.ch.Uniform(2)
	p.endAt = max(p.lastAt, s.Now()+s.latency())
	switch mode {
	case "fin":
		p.fin = true
	case "lost":
		p.rst = true
		if p.hsDone == 0 && !p.fp.raw {
			return // losing the handshake would be a failed start-up
		}
		for _, g := range p.segs {
			p.inflight -= len(g.data)
		}
		p.segs = nil
		p.endAt = s.Now()
	default:
		p.rst = true
	}
}

// transmit moves b from the sender to the wire through the frame observer and filter.
func (s *Sim) transmit(p *pipe, b []byte) {
	if !p.primary || p.fp.raw {
		s.emit(p, b)
		return
	}
	flt := s.Filter[p.from]
	frames := p.fp.feed(b)
	if flt == nil {
		s.emit(p, b)
	} else {
		s.emit(p, p.fp.takeHeader())
		if p.fp.raw {
			s.emit(p, b)
		}
	}
	for _, body := range frames {
		f := s.frame(p, body)
		if flt != nil {
			outs := flt(f)
			changed := len(outs) != 1 || outs[0].Bytes != nil || !bytes.Equal(outs[0].Body, body)
			if changed {
				s.Stats["fault.byzantine_frame"]++
				s.event("byzantine %d->%d frame %d: %d replacement(s)", p.from, p.to, f.Idx, len(outs))
			}
			for _, o := range outs {
				s.emitRaw(p, o)
			}
			if !changed && s.OnFrame != nil {
				s.OnFrame(f)
			} else if s.OnFrame != nil {
				for _, o := range outs {
					if o.Bytes == nil {
						g := *f
						fillFrame(&g, o.Body)
						s.OnFrame(&g)
					}
				}
			}
			continue
		}
		if s.OnFrame != nil {
			s.OnFrame(f)
		}
	}
}

func (s *Sim) emitRaw(p *pipe, o Raw) {
	if o.Bytes != nil {
		s.emit(p, o.Bytes)
		return
	}
	s.emit(p, FrameBytes(o.Body))
}

// FrameBytes adds the length prefix to a frame body.
func FrameBytes(body []byte) []byte {
	l := len(body)
	b := make([]byte, 8, 8+l)
	for i := 0; i < 8; i++ {
		b[i] = byte(uint64(l) >> (8 * i))
	}
	return append(b, body...)
}

// Body builds a frame body.
func Body(id uint16, round int64, payload []byte) []byte {
	b := make([]byte, 10, 10+len(payload))
	b[0], b[1] = byte(id), byte(id>>8)
	for i := 0; i < 8; i++ {
		b[2+i] = byte(uint64(round) >> (8 * i))
	}
	return append(b, payload...)
}

func fillFrame(f *Frame, body []byte) {
	f.Short = len(body) < 10
	f.Payload = nil
	if !f.Short {
		f.ID = uint16(body[0]) | uint16(body[1])<<8
		var r uint64
		for i := 0; i < 8; i++ {
			r |= uint64(body[2+i]) << (8 * i)
		}
		f.Round = int64(r)
		f.Payload = append([]byte(nil), body[10:]...)
	}
}

func (s *Sim) frame(p *pipe, body []byte) *Frame {
	f := &Frame{From: p.from, To: p.to, Idx: p.fp.count, Step: s.Steps, At: s.Now(),
		Call: s.parties[p.from].callName, CallIdx: s.parties[p.from].calls}
	p.fp.count++
	s.parties[p.from].Frames++
	fillFrame(f, body)
	return f
}

// Inject puts raw bytes on the primary stream from one party to another (Byzantine use).
func (s *Sim) Inject(from, to int, o Raw) {
	for _, p := range s.pipes {
		if p.primary && p.from == from && p.to == to {
			s.emitRaw(p, o)
			return
		}
	}
}

type frameParser struct {
	raw   bool
	hs    int
	hdr   []byte // handshake bytes not yet taken
	buf   []byte
	count int
}

func (fp *frameParser) takeHeader() []byte { h := fp.hdr; fp.hdr = nil; return h }

func (fp *frameParser) feed(b []byte) [][]byte {
	if fp.hs < 2 {
		n := min(2-fp.hs, len(b))
		fp.hdr = append(fp.hdr, b[:n]...)
		fp.hs += n
		b = b[n:]
	}
	fp.buf = append(fp.buf, b...)
	var out [][]byte
	for len(fp.buf) >= 8 {
		var l uint64
		for i := 0; i < 8; i++ {
			l |= uint64(fp.buf[i]) << (8 * i)
		}
		if l > 1<<26 {
			break
		}
		if uint64(len(fp.buf)-8) < l {
			break
		}
		out = append(out, append([]byte(nil), fp.buf[8:8+l]...))
		fp.buf = fp.buf[8+l:]
	}
	return out
}

// ---- scheduler ----

func (s *Sim) canProceed(o *op, now int64) bool {
	if o.readyAt > now {
		return false
	}
	switch o.kind {
	case "call", "yield", "close":
		return true
	case "dial":
		return true
	case "listen":
		return len(s.parties[o.party].acceptQ[o.epoch]) > 0
	case "write":
		p := o.pipe
		return o.end.closed || p.broken || p.rclosed || len(o.buf) == o.progress || len(p.wbuf) < s.bufCap() || p.window(s) > 0
	case "flush":
		p := o.pipe
		return o.end.closed || p.broken || p.rclosed || len(p.wbuf) == 0 || p.window(s) > 0
	case "read":
		p := o.pipe
		if o.end.closed || len(o.buf) == 0 {
			return true
		}
		if len(p.segs) > 0 {
			return p.segs[0].at <= now
		}
		return (p.fin || p.rst) && p.endAt <= now
	}
	return false
}

func (s *Sim) nextTime(now int64) int64 {
	t := inf
	for _, o := range s.pending {
		if o.readyAt > now {
			t = min(t, o.readyAt)
		}
		if o.kind == "read" {
			p := o.pipe
			if len(p.segs) > 0 {
				if p.segs[0].at > now {
					t = min(t, p.segs[0].at)
				}
			} else if (p.fin || p.rst) && p.endAt > now {
				t = min(t, p.endAt)
			}
		}
	}
	return t
}

func (s *Sim) allDone() bool {
	for _, p := range s.parties {
		if p.started && !p.done && !p.Dead && !s.Ignore[p.ID] {
			return false
		}
	}
	return true
}

func less(a, b *op) bool {
	if a.party != b.party {
		return a.party < b.party
	}
	if a.kind != b.kind {
		return a.kind < b.kind
	}
	if a.peer != b.peer {
		return a.peer < b.peer
	}
	if c := bytes.Compare(a.buf, b.buf); c != 0 && a.kind == "write" {
		return c < 0
	}
	if a.label != b.label {
		return a.label < b.label
	}
	if a.epoch != b.epoch {
		return a.epoch < b.epoch
	}
	if a.name != b.name {
		return a.name < b.name
	}
	if a.end != nil && b.end != nil && a.end.id != b.end.id {
		return a.end.id < b.end.id
	}
	return a.seq < b.seq
}

func (s *Sim) prio(o *op) int {
	k := fmt.Sprintf("%d/%s/%d", o.party, o.kind, o.peer)
	if s.Plan.Policy == 4 {
		k = strconv.Itoa(o.party)
	}
	return int(Mix(s.Plan.Seed, 4, HashString(k), uint64(s.Steps/97)) % 1000)
}

// pick chooses among the enabled operations (canonical order).
func (s *Sim) pick(en []*op) int {
	return s.ch.Do(len(en), func(r *rand.Rand) int {
		best := 0
		switch s.Plan.Policy {
		case 1: // FIFO
			for i, o := range en {
				if o.seq < en[best].seq {
					best = i
				}
			}
			return best
		case 2: // LIFO with noise
			if r.IntN(8) == 0 {
				return r.IntN(len(en))
			}
			for i, o := range en {
				if o.seq > en[best].seq {
					best = i
				}
			}
			return best
		case 3, 4: // random priorities that change now and then
			if r.IntN(20) == 0 {
				return r.IntN(len(en))
			}
			for i, o := range en {
				if s.prio(o) > s.prio(en[best]) {
					best = i
				}
			}
			return best
		case 5: // starve one party
			var idx []int
			for i, o := range en {
				if o.party != s.starve {
					idx = append(idx, i)
				}
			}
			if len(idx) == 0 || r.IntN(50) == 0 {
				return r.IntN(len(en))
			}
			return idx[r.IntN(len(idx))]
		}
		return r.IntN(len(en))
	})
}

// number gives the operations that arrived since the last step their sequence numbers, in
// canonical order: which goroutine happened to park first is not decided by us and must
// not matter.
func (s *Sim) number() {
	sort.SliceStable(s.pending, func(i, j int) bool { return less(s.pending[i], s.pending[j]) })
	for _, o := range s.pending {
		if o.seq == 0 {
			s.seq++
			o.seq = s.seq
		}
	}
	sort.SliceStable(s.pending, func(i, j int) bool { return less(s.pending[i], s.pending[j]) })
}

// Run drives the simulation until every party's main goroutine has finished.
func (s *Sim) Run() {
	for {
		synctest.Wait()
		s.mu.Lock()
		if s.allDone() {
			s.mu.Unlock()
			return
		}
		now := s.Now()
		if s.Steps >= s.MaxSteps || now > s.MaxSim {
			s.OutOfSteps = s.Steps >= s.MaxSteps
			s.Hung = true
			s.event("cut off: steps=%d", s.Steps)
			s.mu.Unlock()
			return
		}
		if s.isFine && s.Steps >= fineSteps {
			s.isFine = false // the run is to come to its end
			simsync.SetHooks(nil)
		}
		s.number()
		var en []*op
		for _, o := range s.pending {
			if s.canProceed(o, now) {
				en = append(en, o)
			}
		}
		if len(en) == 0 {
			next := s.nextTime(now)
			s.mu.Unlock()
			select {
			case <-s.wake: // drop a stale token
			default:
			}
			d := time.Hour
			if next < inf {
				d = time.Duration(next - now)
			}
			tm := time.NewTimer(d)
			select {
			case <-s.wake:
				tm.Stop()
			case <-tm.C:
				if next >= inf {
					s.mu.Lock()
					n := len(s.pending)
					progress := false
					for _, o := range s.pending {
						if s.canProceed(o, s.Now()) {
							progress = true
						}
					}
					if !progress && !s.allDone() {
						s.Hung = true
						s.event("hang: %d operations blocked", n)
						s.mu.Unlock()
						return
					}
					s.mu.Unlock()
				}
			}
			continue
		}
		o := en[s.pick(en)]
		s.Steps++
		s.step(o)
		s.mu.Unlock()
		if o.label != "" && o.kind == "yield" {
			time.Sleep(time.Nanosecond)
		} else {
			time.Sleep(time.Microsecond)
		}
	}
}

func (s *Sim) finish(o *op, r opResult) {
	for i, x := range s.pending {
		if x == o {
			s.pending = append(s.pending[:i:i], s.pending[i+1:]...)
			break
		}
	}
	msg := ""
	if r.err != nil {
		if o.pipe != nil && (o.kind == "write" || o.kind == "flush") {
			o.pipe.failed = append(o.pipe.failed, s.parties[o.party].calls)
		}
		msg = " err=" + r.err.Error()
	}
	var dh uint64
	if r.err == nil && r.n > 0 && (o.kind == "read" || o.kind == "write") {
		h := fnv.New64a()
		h.Write(o.buf[:r.n])
		dh = h.Sum64()
	}
	s.event("p%d %s %s peer=%d n=%d data=%x%s", o.party, o.kind, o.label, o.peer, r.n, dh, msg)
	o.done <- r
}

// startedUp tells whether every pair of parties has exchanged its handshakes (only asked
// for in worlds that have a start-up phase). Crashes wait for it: the properties promise
// progress only after start-up.
func (s *Sim) startedUp() bool {
	if s.up || !s.NeedStart {
		return true
	}
	n := len(s.parties)
	have := map[int]bool{}
	for _, p := range s.pipes {
		if p.primary && p.hsDone > 0 {
			have[p.from*n+p.to] = true
		}
	}
	s.up = len(have) == n*(n-1)
	return s.up
}

// step performs the effect of an operation. s.mu is held.
func (s *Sim) step(o *op) {
	Progress.Add(1)
	k := fmt.Sprintf("%d%s%d", o.party, o.kind, o.peer)
	for i := 0; i < len(k); i++ {
		s.ilHash = (s.ilHash ^ uint64(k[i])) * 1099511628211
	}
	pt := s.parties[o.party]
	if o.kind == "call" {
		pt.calls++
		pt.ops = 0
		pt.callName = o.label
	}
	pt.ops++
	for i := range s.Plan.Faults {
		f := &s.Plan.Faults[i]
		if f.Kind == "crash" && f.From == o.party && !s.used[i] && pt.calls == f.Call && pt.ops > f.Ops && pt.Frames >= f.Off && s.startedUp() {
			s.used[i] = true
			s.Stats["fault.crash"]++
			s.crash(pt, f.Mode)
			return
		}
	}
	now := s.Now()
	switch o.kind {
	case "call", "yield":
		s.finish(o, opResult{})
	case "dial":
		if o.failing {
			s.finish(o, opResult{err: errRefused})
			return
		}
		if o.peer < 0 || o.peer >= len(s.parties) {
			s.finish(o, opResult{err: errRefused})
			return
		}
		for i := range s.Plan.Faults {
			f := &s.Plan.Faults[i]
			if f.Kind == "dialfail" && f.From == o.party && f.To == o.peer && s.faultN[i] < f.N {
				s.faultN[i]++
				s.Stats["fault.dialfail"]++
				o.failing = true
				o.readyAt = now + max(f.Dur, int64(time.Millisecond))
				return
			}
		}
		for i := range s.Plan.Faults {
			f := &s.Plan.Faults[i]
			if f.Kind == "outage" && (f.From == o.party && f.To == o.peer || f.To == o.party && f.From == o.peer) && now < f.Dur {
				s.Stats["fault.outage"]++
				o.failing = true
				o.readyAt = now + max(f.Dur/40, int64(time.Millisecond))
				return
			}
		}
		if s.parties[o.peer].Dead {
			pt.pair[o.peer]++
			o.failing = true
			o.readyAt = now + int64(time.Millisecond)<<uint(min(pt.pair[o.peer], 20))
			return
		}
		a, b := s.Connect(o.party, o.peer)
		a.out.fp.raw = false
		a.out.epoch, a.in.epoch = o.epoch, o.epoch
		q := s.parties[o.peer]
		q.acceptQ[o.epoch] = append(q.acceptQ[o.epoch], b)
		a.given = true
		s.finish(o, opResult{conn: a})
	case "listen":
		for i := range s.Plan.Faults {
			f := &s.Plan.Faults[i]
			if f.Kind == "listenfail" && f.From == o.party && s.faultN[i] < f.N {
				s.faultN[i]++
				s.Stats["fault.listenfail"]++
				s.finish(o, opResult{err: errAccept})
				return
			}
		}
		q := pt.acceptQ[o.epoch]
		i := s.ch.Uniform(len(q))
		e := q[i]
		pt.acceptQ[o.epoch] = append(q[:i:i], q[i+1:]...)
		e.given = true
		s.finish(o, opResult{conn: e})
	case "write":
		s.doWrite(o)
	case "flush":
		p := o.pipe
		if o.end.closed {
			s.finish(o, opResult{err: errClosed})
			return
		}
		if (p.broken || p.rclosed) && len(p.wbuf) == 0 && !p.werr {
			s.finish(o, opResult{})
			return
		}
		if p.broken || p.rclosed {
			p.wbuf, p.werr = nil, true
			if p.ghost > 0 {
				p.ghost--
				s.finish(o, opResult{})
				return
			}
			s.finish(o, opResult{err: errPipe})
			return
		}
		s.push(p)
		if len(p.wbuf) == 0 || p.broken {
			s.finish(o, opResult{})
		}
	case "read":
		s.doRead(o)
	case "close":
		s.closeEnd(o.end)
		s.finish(o, opResult{})
	}
}

// push moves as much of the write buffer to the wire as the window allows.
func (s *Sim) push(p *pipe) int {
	n := min(len(p.wbuf), p.window(s))
	if n <= 0 {
		return 0
	}
	b := p.wbuf[:n]
	p.wbuf = append([]byte(nil), p.wbuf[n:]...)
	s.transmit(p, b)
	return n
}

func (s *Sim) doWrite(o *op) {
	p := o.pipe
	if o.end.closed {
		s.finish(o, opResult{n: o.progress, err: errClosed})
		return
	}
	if p.broken || p.rclosed {
		if p.ghost > 0 {
			p.ghost--
			s.finish(o, opResult{n: len(o.buf)})
			return
		}
		s.finish(o, opResult{n: o.progress, err: errPipe})
		return
	}
	for o.progress < len(o.buf) {
		n := min(s.bufCap()-len(p.wbuf), len(o.buf)-o.progress)
		if n > 0 {
			p.wbuf = append(p.wbuf, o.buf[o.progress:o.progress+n]...)
			o.progress += n
		}
		if o.progress == len(o.buf) {
			break
		}
		if s.push(p) == 0 {
			return // stays parked until the window opens
		}
		if p.broken {
			s.finish(o, opResult{n: o.progress, err: errPipe})
			return
		}
	}
	if s.ch.Chance(s.Plan.Net.EarlyPush) {
		s.push(p)
	}
	s.finish(o, opResult{n: len(o.buf)})
}

func (s *Sim) doRead(o *op) {
	p := o.pipe
	now := s.Now()
	if o.end.closed {
		s.finish(o, opResult{err: errClosed})
		return
	}
	if len(o.buf) == 0 {
		s.finish(o, opResult{})
		return
	}
	arrived := 0
	for _, g := range p.segs {
		if g.at > now {
			break
		}
		arrived += len(g.data)
	}
	if arrived == 0 {
		p.ended = true
		if p.rst {
			s.finish(o, opResult{err: errReset})
		} else {
			s.finish(o, opResult{err: io.EOF})
		}
		return
	}
	n := min(arrived, len(o.buf))
	full := n
	switch s.Plan.Net.Seg {
	case 1:
		n -= s.ch.Do(n, func(r *rand.Rand) int {
			if r.IntN(3) == 0 {
				return 0
			}
			if r.IntN(4) == 0 {
				return n - 1
			}
			return r.IntN(n)
		})
	case 2:
		n -= s.ch.Do(n, func(r *rand.Rand) int {
			if r.IntN(3) == 0 {
				return r.IntN(n)
			}
			return n - 1 - r.IntN(min(n, 3))
		})
	}
	if n < full {
		s.Stats["fault.short_read"]++
	}
	got := 0
	for got < n {
		g := &p.segs[0]
		k := copy(o.buf[got:n], g.data)
		got += k
		if k == len(g.data) {
			p.segs = p.segs[1:]
		} else {
			g.data = g.data[k:]
		}
	}
	p.inflight -= n
	p.taken = append(p.taken, o.buf[:n]...)
	if p.hsDone == 0 && len(p.taken) >= 2 {
		p.hsDone = now
	}
	var err error
	if s.Plan.Net.EOFWith && len(p.segs) == 0 && p.fin && p.endAt <= now {
		err = io.EOF
		s.Stats["fault.data_with_eof"]++
	}
	s.finish(o, opResult{n: n, err: err})
}

func (s *Sim) closeEnd(e *End) {
	if e.closed {
		return
	}
	e.closed = true
	p := e.out
	p.wbuf = nil
	if !p.fin && !p.rst {
		p.fin = true
		p.endAt = max(p.lastAt, s.Now())
	}
	q := e.in
	q.rclosed = true
	if q.ghost == 0 {
		q.ghost = s.ch.Uniform(3)
	}
	q.werr = q.werr || len(q.wbuf) > 0
	q.segs, q.inflight, q.wbuf = nil, 0, nil
}

// crash ends a process: nothing of it survives, its connections break.
func (s *Sim) crash(p *Party, mode string) {
	s.event("fault crash p%d in call %d (%s) after %d ops, mode %s", p.ID, p.calls, p.callName, p.ops, mode)
	if s.OnCrash != nil && !p.done {
		s.OnCrash(p.ID)
	}
	p.Dead = true
	for _, e := range s.conns {
		if e.owner != p.ID || e.closed {
			continue
		}
		e.closed = true
		s.breakPipe(e.out, mode)
		e.in.rclosed = true
		e.in.werr = e.in.werr || len(e.in.wbuf) > 0
		e.in.segs, e.in.inflight, e.in.wbuf = nil, 0, nil
		if e.in.ghost == 0 {
			e.in.ghost = s.ch.Uniform(3)
		}
	}
	var keep []*op
	for _, o := range s.pending {
		if o.party == p.ID {
			o.done <- opResult{kill: true}
		} else {
			keep = append(keep, o)
		}
	}
	s.pending = keep
}

// CrashNow crashes a party from scenario code running in the scheduler or a party.
func (s *Sim) CrashNow(id int, mode string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Stats["fault.crash"]++
	s.crash(s.parties[id], mode)
}

// ExitNow ends a process in the ordinary way: the system closes its connections.
func (s *Sim) ExitNow(id int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.parties[id].Dead {
		s.crash(s.parties[id], "fin")
	}
}

// Kill ends every goroutine of the run. Nothing after it is judged.
func (s *Sim) Kill() {
	s.mu.Lock()
	s.killing, s.end = true, s.Now()
	for _, o := range s.pending {
		o.done <- opResult{kill: true}
	}
	s.pending = nil
	s.mu.Unlock()
	simsync.SetHooks(nil)
	simsync.End()
}

// Blocked describes what the parties are blocked on (for hang reports).
func (s *Sim) Blocked() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var l []string
	for _, p := range s.parties {
		if p.started && !p.done && !p.Dead && !s.Ignore[p.ID] {
			l = append(l, fmt.Sprintf("p%d in call %d (%s)", p.ID, p.calls, p.callName))
		}
	}
	var w []string
	for _, o := range s.pending {
		w = append(w, fmt.Sprintf("p%d:%s(peer %d)", o.party, o.kind, o.peer))
	}
	sort.Strings(w)
	return "unfinished: " + strings.Join(l, ", ") + "; parked: " + strings.Join(w, " ")
}

// Result summarises the run.
func (s *Sim) Result() *Result {
	s.mu.Lock()
	defer s.mu.Unlock()
	st := map[string]int{}
	for k, v := range s.Stats {
		st[k] = v
	}
	return &Result{Violations: append([]Violation(nil), s.viols...), Steps: s.Steps, SimNS: s.elapsed(),
		Hash: fmt.Sprintf("%016x", s.evHash), Inter: fmt.Sprintf("%016x", s.ilHash), Stats: st,
		Sched: append([]uint32(nil), s.ch.Log()...), Trace: s.logLines}
}
