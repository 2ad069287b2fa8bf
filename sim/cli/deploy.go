package cli

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"aaa.verif/sim/core"
	tec0 "aaa.verif/sim/gen/tec0"
	tec1 "aaa.verif/sim/gen/tec1"
	tec2 "aaa.verif/sim/gen/tec2"
	tec3 "aaa.verif/sim/gen/tec3"
	"aaa.verif/sim/scen"
	"aaa.verif/sim/simos"

	"github.com/binance-chain/tss-lib/crypto/paillier"
	"gitlab.com/alephledger/core-go/pkg/network"
	"gitlab.com/alephledger/core-go/pkg/network/tcp"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/tecdsa"
)

func init() {
	scen.Register("C21", &scen.Scenario{Name: "deployment", Weight: 6, Gen: genDeploy, Setup: setupDeploy, Run: runDeploy})
	scen.Register("C21", &scen.Scenario{Name: "failures", Weight: 4, Gen: genFailures, Setup: setupDeploy, Run: runDeploy})
	scen.Register("C21", &scen.Scenario{Name: "refused", Weight: 5, Gen: genRefused, Setup: setupDeploy, Run: runDeploy})
}

var programs = []func(*simos.Proc){tec0.SimRun, tec1.SimRun, tec2.SimRun, tec3.SimRun}

func genDeploy(r *rand.Rand, p *core.Plan) {
	p.N = 2 + r.IntN(2)
	if r.IntN(8) == 0 {
		p.N = 4
	}
	p.T = 1 + r.IntN(p.N)
	p.I["sigs"] = int64(1 + r.IntN(3))
	if p.N == 4 {
		p.I["sigs"] = 1
	}
	if r.IntN(2) == 0 {
		p.I["addr"] = 1
		p.I["style"] = int64(r.IntN(5))
	}
	p.I["spread_ms"] = int64([]int{0, 10, 1000, 60000}[r.IntN(4)])
	p.I["defaults"] = int64(r.IntN(4)) // 0: leave options at their defaults
	scen.GenNetLight(r, p)
	for k := r.IntN(3); k > 0; k-- {
		from := r.IntN(p.N)
		to := (from + 1 + r.IntN(p.N-1)) % p.N
		switch r.IntN(3) {
		case 0:
			p.Faults = append(p.Faults, core.Fault{Kind: "dialfail", From: from, To: to, N: 1 + r.IntN(3), Dur: int64(time.Millisecond) * int64(1+r.IntN(2000))})
		case 1:
			p.Faults = append(p.Faults, core.Fault{Kind: "listenfail", From: from, N: 1 + r.IntN(3)})
		case 2:
			p.Faults = append(p.Faults, core.Fault{Kind: "stall", From: from, To: to, Off: r.IntN(4000), Dur: int64(time.Millisecond) * int64(1+r.IntN(20000))})
		}
	}
}

func genFailures(r *rand.Rand, p *core.Plan) {
	genDeploy(r, p)
	p.I["mode"] = 1
	switch r.IntN(8) {
	case 0: // one process, or every process, is late
		p.I["late"] = int64(1 + r.IntN(p.N))
		if r.IntN(2) == 0 {
			p.I["late"] = int64(p.N + 1)
		}
	case 1, 2, 3: // a minority crashes while signing
		if p.T == p.N {
			p.T--
		}
		if p.T < 1 {
			p.T = 1
		}
		dead := scen.Subset(r, p.N, 1+r.IntN(max(1, p.N-p.T)))
		p.I["sign_crash"] = 1
		for _, d := range dead {
			p.Faults = append(p.Faults, core.Fault{Kind: "crash", From: d, Ops: r.IntN(60 * p.N), Off: 1, Mode: []string{"fin", "rst", "lost"}[r.IntN(3)]})
		}
	default:
		for k := 1 + r.IntN(2); k > 0; k-- {
			from := r.IntN(p.N)
			to := (from + 1 + r.IntN(p.N-1)) % p.N
			mode := []string{"fin", "rst", "lost"}[r.IntN(3)]
			if r.IntN(4) == 0 {
				p.Faults = append(p.Faults, core.Fault{Kind: "reset", From: from, To: to, Off: 2 + r.IntN(20000), Mode: mode})
			} else {
				p.Faults = append(p.Faults, core.Fault{Kind: "crash", From: from, Ops: r.IntN(400 * p.N), Mode: mode})
			}
		}
	}
}

// genRefused: one process gets something wrong and must say so instead of taking part.
func genRefused(r *rand.Rand, p *core.Plan) {
	genDeploy(r, p)
	p.Faults = nil
	p.I["mode"] = 2
	p.I["bad"] = int64(r.IntN(28))
	p.I["victim"] = int64(r.IntN(p.N))
}

// counter counts the rounds of a library-level run.
type rounds struct{ init, presign, sign int }

// ref is what a run of the library takes; unknown (zero) if it does not complete.
var (
	ref     rounds
	refDone bool
)

// setupDeploy runs the library directly, once, and counts its rounds.
func setupDeploy() {
	if refDone {
		return
	}
	refDone = true
	p := &core.Plan{N: 2, T: 1, Seed: 7, I: map[string]int64{}}
	w := scen.NewEnv(p).NewWorld(p)
	for id := range w.Nodes {
		w.Spawn(id, func(n *scen.Node) {
			pr, err := tecdsa.Init(uint16(n.ID), 2, n)
			if err != nil {
				return
			}
			a := len(n.Recs)
			if pr.Presign(1) != nil {
				return
			}
			b := len(n.Recs)
			if _, err := pr.Sign(scen.Wide(core.NewRand(5), 20)); err == nil && n.ID == 0 {
				ref = rounds{a, b - a, len(n.Recs) - b}
			}
		})
	}
	w.Finish(nil)
}

type simNet struct {
	w *scen.World
	network.Server
	pid     int
	remotes []string
	owner   map[string]int
	bound   *sync.Map
	wait    sync.Map
}

// Dial connects to whoever has bound the address.
func (s *simNet) Dial(pid uint16) (network.Connection, error) {
	if int(pid) >= len(s.remotes) {
		s.w.Violate("address", "process %d dials process %d of %d", s.pid, pid, len(s.remotes))
		time.Sleep(time.Hour)
		return nil, errors.New("no such process")
	}
	to, ok := s.owner[s.remotes[pid]]
	if !ok {
		s.w.Violate("address", "process %d dials %q, which is nobody's address", s.pid, s.remotes[pid])
		time.Sleep(time.Hour)
		return nil, errors.New("no route to host")
	}
	if _, up := s.bound.Load(to); !up {
		d, _ := s.wait.LoadOrStore(pid, 10*time.Millisecond)
		time.Sleep(d.(time.Duration))
		if mode := s.w.P.I["mode"]; mode == 2 && d.(time.Duration) < 20*time.Minute {
			s.wait.Store(pid, 2*d.(time.Duration))
		}
		return nil, errors.New("connection refused")
	}
	return s.Server.Dial(uint16(to))
}

func runDeploy(e *scen.Env) {
	p := e.Plan
	n, sigs := p.N, int(p.I["sigs"])
	if n < 2 || n > len(programs) || sigs < 1 || p.T < 1 || p.T > n {
		return
	}
	// files
	m := newMachine(e)
	addrs, withFile, missing := m.setup(n)
	if missing {
		return
	}
	if ok, _ := m.generate(n, nil, addrs, withFile, 0); !ok {
		return // C20
	}
	paillier.Hook = nil

	if p.I["sign_crash"] == 1 {
		q := *p
		q.Faults = append([]core.Fault(nil), p.Faults...)
		for i := range q.Faults {
			if f := &q.Faults[i]; f.Kind == "crash" { // once it has begun to sign, and later
				f.Off = (ref.init+sigs*ref.presign+1)*(n-1) + f.Ops%(1+ref.sign*sigs*(n-1))
				f.Ops = 0
			}
		}
		p = &q
	}
	w := e.NewWorld(p)
	w.NeedStart = true
	mode, victim, bad := p.I["mode"], int(p.I["victim"])%n, p.I["bad"]
	if mode == 2 {
		w.MayHang = true // the others wait for a process that never comes
	}
	owner := map[string]int{}
	for i, a := range addrs {
		owner[a] = i
	}
	bound := &sync.Map{}
	procs := make([]*simos.Proc, n)
	code := make([]int, n)
	ended := make([]bool, n)
	roundsOf := make([]int, n) // rounds begun, as seen on the wire
	crashedAt := map[int][]int{}
	w.OnFrame = func(f *core.Frame) {
		roundsOf[f.From] = max(roundsOf[f.From], int(f.Round)+1)
	}
	w.OnCrash = func(id int) {
		if !ended[id] {
			crashedAt[id] = append([]int(nil), roundsOf...)
		}
	}
	taken := false                 // the victim's address
	launching := make([]int, 0, n) // party whose program is calling NewServer
	var lmu sync.Mutex
	tcp.Hook = func(local string, remotes []string) (network.Server, error) {
		pid := w.Current()
		if pid < 0 {
			w.Violate("HARNESS", "server made by an unknown process")
			return nil, errors.New("unknown process")
		}
		lmu.Lock()
		launching = append(launching, pid)
		lmu.Unlock()
		if taken && pid == victim {
			e.Stats["fault.address_taken"]++
			return nil, errors.New("listen tcp " + local + ": bind: address already in use")
		}
		if owner[local] != pid || local != addrs[pid] {
			w.Violate("address", "process %d binds %q, its address is %q", pid, local, addrs[pid])
			return nil, errors.New("cannot assign requested address")
		}
		bound.Store(pid, true)
		return &simNet{w: w, Server: w.Net(pid), pid: pid, remotes: append([]string(nil), remotes...), owner: owner, bound: bound}, nil
	}
	defer func() { tcp.Hook = nil }()

	rr := core.NewRand(p.Seed, 41)
	start := strings.ReplaceAll(w.StartAt().UTC().Format(time.UnixDate), " ", "-")
	for id := 0; id < n; id++ {
		disk := simos.NewDisk()
		for _, f := range []string{pk(id), "keys_addrs"} {
			if ino := m.disk.Files[f]; ino != nil {
				disk.Files[f] = &simos.Inode{Data: append([]byte(nil), ino.Data...)}
			}
		}
		opt := map[string]string{"pk": pk(id), "keys_addrs": "keys_addrs", "startTime": start, "roundDuration": "1h",
			"sigNumber": strconv.Itoa(sigs), "threshold": strconv.Itoa(p.T)}
		if p.I["defaults"] == 0 && sigs == 1 {
			delete(opt, "sigNumber")
		}
		if p.I["defaults"] == 0 && p.T == 1 {
			delete(opt, "threshold")
		}
		sector := 0
		if mode == 2 && id == victim {
			switch bad {
			case 0:
				delete(disk.Files, pk(id))
			case 1:
				delete(disk.Files, "keys_addrs")
			case 2:
				opt["pk"] = ""
			case 3:
				opt["startTime"] = "tomorrow"
			case 4:
				opt["roundDuration"] = "long"
			case 5: // a committee this process is not in
				if f := disk.Files["keys_addrs"]; f != nil {
					l := strings.SplitAfter(string(f.Data), "\n")
					f.Data = []byte(strings.Join(l[:id], ""))
				}
			case 6: // a key file without a process id
				if f := disk.Files[pk(id)]; f != nil {
					f.Data = []byte(strings.Fields(string(f.Data) + " x")[0])
				}
			case 7:
				if f := disk.Files[pk(id)]; f != nil {
					f.Data = nil
				}
			case 8: // process id out of range
				if f := disk.Files[pk(id)]; f != nil {
					f.Data = []byte(strings.Fields(string(f.Data) + " x")[0] + " " + strconv.Itoa(n+rr.IntN(3)))
				}
			case 9:
				if f := disk.Files["keys_addrs"]; f != nil {
					f.Data = append(f.Data, "nonsense\n"...)
				}
			case 10, 11: // a committee of one
				if f := disk.Files["keys_addrs"]; f != nil {
					l := strings.SplitAfter(string(f.Data), "\n")
					f.Data = []byte(l[(id*(int(bad)-10))%len(l)])
				}
			case 12:
				opt["sigNumber"] = strconv.Itoa(-rr.IntN(3))
			case 13:
				opt["threshold"] = strconv.Itoa(-rr.IntN(3))
			case 14:
				opt["threshold"] = strconv.Itoa(n + 1 + rr.IntN(3))
			case 15: // a number that does not fit in what the protocol uses for it
				opt["threshold"] = strconv.Itoa(1<<16 + 1 + rr.IntN(n))
			case 16, 17, 18, 19: // a process id that cannot be
				if f := disk.Files[pk(id)]; f != nil {
					w := []string{strconv.Itoa(-1 - rr.IntN(n)), strconv.Itoa(1<<16 + id), "x", strconv.Itoa(id) + "x"}[bad-16]
					f.Data = []byte(strings.Fields(string(f.Data) + " x")[0] + " " + w + "\n")
				}
			case 20:
				delete(opt, "keys_addrs")
			case 21:
				delete(opt, "startTime")
			case 22:
				delete(opt, "roundDuration")
			case 23: // a part of a line is missing or illegible
				if f := disk.Files["keys_addrs"]; f != nil {
					l := strings.Fields(string(f.Data))
					i := rr.IntN(len(l) + 1)
					if i == len(l) {
						i = id
					}
					if pr := strings.Split(l[i], "|"); len(pr) == 2 && len(pr[0]) > 3 {
						l[i] = []string{pr[0], pr[0] + "|", "|" + pr[1], pr[0] + "|noport", pr[0][:2] + "*" + pr[0][3:] + "|" + pr[1]}[rr.IntN(5)]
					}
					f.Data = []byte(strings.Join(l, "\n") + "\n")
				}
			case 24: // an illegible key
				if f := disk.Files[pk(id)]; f != nil && len(f.Data) > 8 {
					f.Data = append([]byte("\x7f*"), f.Data[2:]...)
				}
			case 25: // a key cut short
				if f := disk.Files[pk(id)]; f != nil {
					w := strings.Fields(string(f.Data) + " x x")
					f.Data = []byte(w[0][:rr.IntN(len(w[0]))/4*4] + " " + w[1] + "\n")
				}
			case 26: // its address is taken
				taken = true
			case 27: // a read error
				if f := disk.Files[pk(id)]; f != nil && len(f.Data) > 0 {
					sector = 1 + rr.IntN(len(f.Data))
					if rr.IntN(2) == 0 {
						sector = max(1, len(f.Data)-rr.IntN(3))
					}
				}
			}
		}
		args := []string{"tecdsa"}
		for _, k := range []string{"pk", "keys_addrs", "startTime", "roundDuration", "sigNumber", "threshold"} {
			if v, ok := opt[k]; ok {
				args = append(args, "-"+k, v)
			}
		}
		pr := &simos.Proc{Disk: disk, Args: args, Uniform: func(int) int { return 0 }, FDs: 1024,
			OnExit: func(c int) { code[id] = c }}
		procs[id] = pr
		if sector > 0 {
			pr.Faults = []simos.Fault{{Kind: "sector", N: sector - 1, Err: syscall.EIO}}
		}
		delay := time.Duration(0)
		if s := p.I["spread_ms"]; s > 0 {
			delay = time.Duration(rr.Int64N(s)) * time.Millisecond
		}
		if l := int(p.I["late"]); mode == 1 && (l == id+1 || l == n+1) {
			delay = w.StartAt().Sub(w.Start()) + time.Duration(rr.IntN([]int{3000, 600000}[rr.IntN(2)]))*time.Millisecond + time.Millisecond
			e.Stats["fault.late_process"]++
		}
		w.Go(id, func(party *core.Party) {
			party.Yield()
			time.Sleep(delay)
			party.Yield()
			done := make(chan struct{})
			go func() { // os.Exit ends only this goroutine
				defer close(done)
				defer func() {
					if r := recover(); r != nil && !party.Gone() {
						code[id] = 2
						w.RecordPanic(fmt.Sprint(r), string(debug.Stack()))
					}
				}()
				w.Adopt(id)
				programs[id](pr)
			}()
			<-done
			if party.Gone() {
				pr.Die()
				return
			}
			w.Locked(func() { ended[id] = true })
			w.Event("p%d ended with code %d", id, code[id])
			pr.Die()
			w.ExitNow(id)
		})
	}
	w.Finish(func() {
		judge(w, mode, victim, n, sigs, procs, code, ended, crashedAt, roundsOf, len(launching))
	})
	for _, pr := range procs {
		pr.Die()
	}
}

func logOf(p *simos.Proc) string {
	s := string(p.Out) + string(p.Err)
	for _, f := range p.Disk.Names() {
		if f != "keys_addrs" && !strings.HasSuffix(f, ".pk") {
			s += string(p.Disk.Files[f].Data)
		}
	}
	return s
}

func errLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(strings.ToLower(l), "error") {
			return l
		}
	}
	return ""
}

func judge(w *scen.World, mode int64, victim, n, sigs int, procs []*simos.Proc, code []int, ended []bool, crashedAt map[int][]int, roundsOf []int, launched int) {
	e := w.E
	total := ref.init + sigs*(ref.presign+ref.sign)
	complete := func(id int) string {
		l := logOf(procs[id])
		switch {
		case !ended[id]:
			return "did not end"
		case code[id] != 0:
			return fmt.Sprintf("ended with code %d: %s", code[id], errLine(l))
		case errLine(l) != "":
			return "reported: " + errLine(l)
		case !strings.Contains(l, "All done!"):
			return fmt.Sprintf("did not reach its end: %q", tail(l))
		case ref.sign > 0 && n-len(crashedAt) > 1 && roundsOf[id] != total:
			return fmt.Sprintf("took part in %d rounds; an initialisation, %d presignatures and %d signatures take %d", roundsOf[id], sigs, sigs, total)
		}
		return ""
	}
	switch mode {
	case 0:
		for id := range procs {
			if s := complete(id); s != "" && !w.Hung {
				w.Violate("incomplete", "process %d of %d (threshold %d, %d signatures) %s", id, n, w.P.T, sigs, s)
				return
			}
		}
		e.Nontriv = true
		e.Stats["signatures"] += n * sigs
	case 1:
		if w.Hung {
			return // judged by Finish
		}
		// while presignatures are in store, a minority may fail
		dead := 0
		enough := ref.sign > 0
		for _, f := range e.Plan.Faults {
			if f.Kind == "reset" {
				enough = false
			}
		}
		for _, at := range crashedAt {
			dead++
			for _, r := range at {
				if r <= ref.init+sigs*ref.presign {
					enough = false
				}
			}
		}
		if dead > 0 {
			e.Nontriv = true
		}
		if late := int(e.Plan.I["late"]); late > 0 {
			// whoever waits for a late process begins its first round late as well
			for id := range procs {
				l := logOf(procs[id])
				if late > n+1 || !ended[id] {
					continue
				}
				switch {
				case code[id] == 0 && errLine(l) == "":
					w.Violate("late", "process %d of %d began after the agreed start (late: %d) and reports no error: %q", id, n, late-1, tail(l))
				case strings.Contains(l, "All done!"):
					w.Violate("late", "process %d of %d began after the agreed start (late: %d) and claims to be done", id, n, late-1)
				case roundsOf[id] > 0:
					w.Violate("late", "process %d of %d began after the agreed start (late: %d) and took part in a round", id, n, late-1)
				}
			}
			e.Nontriv = true
			return
		}
		// without the last presigning message of some process nobody has all presignatures
		for d, at := range crashedAt {
			if ref.sign == 0 || at[d] >= ref.init+sigs*ref.presign {
				continue
			}
			for id := range procs {
				if _, c := crashedAt[id]; c || !ended[id] {
					continue
				}
				e.Stats["presigning_failed"]++
				l := logOf(procs[id])
				if strings.Contains(l, "All done!") {
					w.Violate("claims", "process %d crashed before the last presignature and process %d claims to be done", d, id)
				} else if code[id] == 0 && errLine(l) == "" {
					w.Violate("claims", "process %d crashed before the last presignature and process %d reports no error: %q", d, id, tail(l))
				}
			}
		}
		// with too few processes in the last round nobody has the last signature
		began := n
		for d, at := range crashedAt {
			if at[d] < total {
				began--
			}
		}
		if ref.sign > 0 && began < w.P.T {
			for id := range procs {
				if _, c := crashedAt[id]; c || !ended[id] {
					continue
				}
				e.Stats["signing_failed"]++
				if l := logOf(procs[id]); code[id] == 0 && errLine(l) == "" {
					w.Violate("claims", "%d of %d processes crashed before the last signature with threshold %d, and process %d reports no error: %q", n-began, n, w.P.T, id, tail(l))
					return
				}
			}
		}
		if enough && dead > 0 && dead <= n-w.P.T {
			e.Stats["signed_despite_crash"]++
			for id := range procs {
				if _, c := crashedAt[id]; c {
					continue
				}
				if s := complete(id); s != "" {
					w.Violate("incomplete", "%d of %d processes crashed while signing with threshold %d, and process %d %s", dead, n, w.P.T, id, s)
					return
				}
			}
		}
	case 2:
		e.Nontriv = true
		l := logOf(procs[victim])
		switch {
		case !ended[victim]:
			w.Violate("not-refused", "process %d was given unusable input (%d) and has not ended: %q", victim, e.Plan.I["bad"], tail(l))
		case strings.Contains(l, "All done!"):
			w.Violate("not-refused", "process %d was given unusable input (%d) and claims to be done", victim, e.Plan.I["bad"])
		case code[victim] == 0 && len(strings.TrimSpace(l)) == 0:
			w.Violate("silent", "process %d was given unusable input (%d) and ended without a word", victim, e.Plan.I["bad"])
		case roundsOf[victim] > 0:
			w.Violate("not-refused", "process %d was given unusable input (%d) and took part in a round", victim, e.Plan.I["bad"])
		}
	}
}

func tail(s string) string {
	if len(s) > 300 {
		return s[len(s)-300:]
	}
	return s
}
