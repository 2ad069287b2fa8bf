// Package drive is the worker process: it runs the plans it is given, one after the other.
package drive

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"aaa.verif/sim/core"
	"aaa.verif/sim/scen"
)

type line struct {
	Kind   string       `json:"kind"` // begin, end, stuck, done
	Index  int          `json:"index"`
	Plan   *core.Plan   `json:"plan,omitempty"`
	Result *core.Result `json:"result,omitempty"`
	WallMS int64        `json:"wall_ms,omitempty"`
}

var out *os.File

func emit(l line) {
	b, err := json.Marshal(l)
	if err != nil {
		panic("harness: " + err.Error())
	}
	out.Write(append(b, '\n'))
}

func envInt(k string, def int) int {
	if v := os.Getenv(k); v != "" {
		n, err := strconv.Atoi(v)
		if err != nil {
			panic("harness: " + k)
		}
		return n
	}
	return def
}

// planFor derives run number i of a property: the directed plans come first.
func planFor(prop string, base uint64, i int) (*core.Plan, *scen.Scenario) {
	scs := scen.Registry[prop]
	if len(scs) == 0 {
		panic("harness: unknown property " + prop)
	}
	seed := core.Mix(base, core.HashString(prop), uint64(i))
	j := i
	total := 0
	for _, s := range scs {
		total += s.Weight
		if s.Directed == nil {
			continue
		}
		d := s.Directed()
		if j < len(d) {
			p := d[j]
			p.Property, p.Scenario = prop, s.Name
			if p.Seed == 0 {
				p.Seed = core.Mix(base, core.HashString(prop), uint64(i))
			}
			if p.I == nil {
				p.I = map[string]int64{}
			}
			return p, s
		}
		j -= len(d)
	}
	r := core.NewRand(seed, 1000)
	k := r.IntN(total)
	for _, s := range scs {
		if k < s.Weight {
			p := &core.Plan{Property: prop, Scenario: s.Name, Seed: seed, I: map[string]int64{}}
			s.Gen(r, p)
			return p, s
		}
		k -= s.Weight
	}
	panic("harness: weights")
}

func scenarioOf(p *core.Plan) *scen.Scenario {
	for _, s := range scen.Registry[p.Property] {
		if s.Name == p.Scenario {
			return s
		}
	}
	panic("harness: unknown scenario " + p.Scenario)
}

// running is the number of the run in progress (from 1), or minus that of the last one.
var running atomic.Int64

func runPlan(t *testing.T, i int, p *core.Plan, s *scen.Scenario, keep bool, done func(*core.Result)) {
	if p.I == nil {
		p.I = map[string]int64{}
	}
	n := max(running.Load(), -running.Load()) + 1
	running.Store(n)
	defer running.Store(-n)
	if f := os.Getenv("SIM_SCHEDLOG"); f != "" {
		fh, err := os.Create(f)
		if err != nil {
			panic("harness: " + err.Error())
		}
		defer fh.Close()
		schedTee = func(v uint32) { var b [4]byte; binary.LittleEndian.PutUint32(b[:], v); fh.Write(b[:]) }
	}
	if s.Setup != nil {
		synctest.Test(t, func(t *testing.T) { s.Setup() })
	}
	synctest.Test(t, func(t *testing.T) {
		e := scen.NewEnv(p)
		e.KeepLog = keep
		e.Chooser().Tee = schedTee
		func() {
			defer func() {
				if r := recover(); r != nil {
					e.V("HARNESS", "scenario panicked: %v\n%s", r, debug.Stack())
				}
			}()
			s.Run(e)
		}()
		done(e.Result())
	})
}

var schedTee func(uint32)

func cpu() float64 {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return float64(u.Utime.Sec+u.Stime.Sec) + float64(u.Utime.Usec+u.Stime.Usec)/1e6
}

// watch ends the process when a run has used too much processor time (or, should it sleep,
// real time) since the simulator last did anything.
func watch(cpuLimit, wallLimit int) {
	run, done, c0, ticks := int64(0), int64(0), cpu(), 0
	for {
		time.Sleep(time.Second)
		if r, d := running.Load(), core.Progress.Load(); r != run || d != done {
			run, done, c0, ticks = r, d, cpu(), 0
			continue
		}
		ticks++
		if run > 0 && (cpu()-c0 > float64(cpuLimit) || ticks > wallLimit) {
			emit(line{Kind: "stuck"})
			os.Exit(3)
		}
	}
}

// Worker explores or replays as the environment says.
func Worker(t *testing.T) {
	mode := os.Getenv("SIM_MODE")
	if mode == "" {
		t.Skip("driven by /verif/check")
	}
	var err error
	out, err = os.OpenFile(os.Getenv("SIM_OUT"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	go watch(envInt("SIM_RUN_CPU_S", 30), envInt("SIM_RUN_WALL_S", 240))
	switch mode {
	case "explore":
		prop := os.Getenv("SIM_PROP")
		base := uint64(envInt("SIM_SEED", 1))
		lo, hi := envInt("SIM_LO", 0), envInt("SIM_HI", 0)
		keepAll := os.Getenv("SIM_KEEP") != ""
		for i := lo; i < hi; i++ {
			p, s := planFor(prop, base, i)
			emit(line{Kind: "begin", Index: i, Plan: p})
			t0 := time.Now()
			runPlan(t, i, p, s, false, func(r *core.Result) {
				l := line{Kind: "end", Index: i, Result: r, WallMS: time.Since(t0).Milliseconds()}
				if len(r.Violations) > 0 || keepAll {
					q := *p
					q.Replay, q.Sched = true, r.Sched
					l.Plan = &q
				}
				r.Sched = nil
				emit(l)
			})
		}
	case "replay":
		b, err := os.ReadFile(os.Getenv("SIM_PLAN"))
		if err != nil {
			t.Fatal(err)
		}
		var p core.Plan
		if err := json.Unmarshal(b, &p); err != nil {
			t.Fatal(err)
		}
		s := scenarioOf(&p)
		emit(line{Kind: "begin", Plan: &p})
		runPlan(t, 0, &p, s, os.Getenv("SIM_TRACE") != "", func(r *core.Result) {
			emit(line{Kind: "end", Result: r})
		})
	default:
		panic(fmt.Sprintf("harness: mode %q", mode))
	}
	emit(line{Kind: "done"})
}
