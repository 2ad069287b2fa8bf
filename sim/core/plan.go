package core

// Fault is one planned fault. Which fields matter depends on Kind.
type Fault struct {
	Kind string `json:"kind"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Call int    `json:"call,omitempty"` // API call index of party From
	Ops  int    `json:"ops,omitempty"`  // network operations of party From within that call
	Off  int    `json:"off,omitempty"`  // byte offset on the From->To stream; of a crash: frames sent by then
	N    int    `json:"n,omitempty"`
	Dur  int64  `json:"dur,omitempty"` // ns
	Mode string `json:"mode,omitempty"`
}

// Op is one workload step; meaning is the scenario's.
type Op struct {
	Kind string `json:"kind"`
	A    int64  `json:"a,omitempty"`
	B    int64  `json:"b,omitempty"`
	C    int64  `json:"c,omitempty"`
	D    int64  `json:"d,omitempty"`
}

// Net is the behaviour of the simulated network.
type Net struct {
	Seg       int     `json:"seg"`        // 0 full reads, 1 random short reads, 2 mostly single bytes
	BufCap    int     `json:"buf_cap"`    // user-space write buffer
	Window    int     `json:"window"`     // bytes in flight plus unread, per direction
	EarlyPush float64 `json:"early_push"` // chance that buffered bytes leave before Flush
	LatMin    int64   `json:"lat_min"`
	LatJit    int64   `json:"lat_jit"`
	EOFWith   bool    `json:"eof_with"` // Read may return data together with io.EOF
	// Fine is the inverse of the share of the statements of pkg/sync and pkg/arith before
	// which the scheduler may switch to another goroutine (0: none).
	Fine int `json:"fine,omitempty"`
}

// Plan is a complete, self-contained description of one run.
type Plan struct {
	Property string           `json:"property"`
	Scenario string           `json:"scenario"`
	Seed     uint64           `json:"seed"`
	N        int              `json:"n"`
	T        int              `json:"t"`
	I        map[string]int64 `json:"i,omitempty"`
	Ops      []Op             `json:"ops,omitempty"`
	Faults   []Fault          `json:"faults,omitempty"`
	Net      Net              `json:"net"`
	Policy   int              `json:"policy"`
	Replay   bool             `json:"replay,omitempty"` // take decisions from Sched
	Sched    []uint32         `json:"sched,omitempty"`
	// Expect is filled in replay files: the violation this plan reproduces.
	Expect string `json:"expect,omitempty"`
}

// Violation is one observed breach.
type Violation struct {
	Class  string `json:"class"` // stable identification
	Detail string `json:"detail"`
	Step   int    `json:"step"`
	At     int64  `json:"at_ns"`
}

// Result is what a run produced.
type Result struct {
	Violations []Violation    `json:"violations,omitempty"`
	HarnessErr string         `json:"harness_err,omitempty"`
	Steps      int            `json:"steps"`
	SimNS      int64          `json:"sim_ns"`
	Hash       string         `json:"hash"`  // hash of the whole event log
	Inter      string         `json:"inter"` // hash of the interleaving (who did what in which order)
	Stats      map[string]int `json:"stats,omitempty"`
	Sched      []uint32       `json:"sched,omitempty"`
	Trace      []string       `json:"trace,omitempty"`
	Note       string         `json:"note,omitempty"`
	Nontrivial bool           `json:"nontrivial"`
}
