package core

import "math/rand/v2"

// Mix derives a 64-bit value from several (splitmix64 chain).
func Mix(xs ...uint64) uint64 {
	h := uint64(0x9E3779B97F4A7C15)
	for _, x := range xs {
		h ^= x
		h += 0x9E3779B97F4A7C15
		z := h
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
		z = (z ^ (z >> 27)) * 0x94D049BB133111EB
		h = z ^ (z >> 31)
	}
	return h
}

// HashString is FNV-1a.
func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// NewRand returns a PRNG determined by its arguments.
func NewRand(xs ...uint64) *rand.Rand {
	return rand.New(rand.NewPCG(Mix(xs...), Mix(append(xs, 0xabcdef)...)))
}

// Chooser makes every decision of a run. In record mode decisions come from the PRNG and
// are logged; in replay mode they come from the log, and are 0 (the benign choice) past
// its end.
type Chooser struct {
	rng    *rand.Rand
	replay bool
	log    []uint32
	pos    int
	// Tee, if set, sees every decision as it is made (to recover them if the process dies).
	Tee func(v uint32)
}

// NewChooser returns a recording chooser.
func NewChooser(seed uint64) *Chooser { return &Chooser{rng: NewRand(seed, 77)} }

// ReplayChooser returns a replaying chooser.
func ReplayChooser(log []uint32) *Chooser { return &Chooser{replay: true, log: log} }

// Do returns a decision in [0,n): in record mode gen() picks it.
func (c *Chooser) Do(n int, gen func(r *rand.Rand) int) int {
	if n <= 1 {
		return 0
	}
	if c.replay {
		v := 0
		if c.pos < len(c.log) {
			v = int(c.log[c.pos]) % n
		}
		c.pos++
		if c.Tee != nil {
			c.Tee(uint32(v))
		}
		return v
	}
	v := gen(c.rng)
	if v < 0 || v >= n {
		v = 0
	}
	c.log = append(c.log, uint32(v))
	if c.Tee != nil {
		c.Tee(uint32(v))
	}
	return v
}

// Uniform picks uniformly in [0,n).
func (c *Chooser) Uniform(n int) int {
	return c.Do(n, func(r *rand.Rand) int { return r.IntN(n) })
}

// Chance is true with probability p; false is the benign choice.
func (c *Chooser) Chance(p float64) bool {
	if p <= 0 {
		return false
	}
	return c.Do(2, func(r *rand.Rand) int {
		if r.Float64() < p {
			return 1
		}
		return 0
	}) == 1
}

// Log returns the decisions made so far (trailing benign ones removed).
func (c *Chooser) Log() []uint32 {
	l := c.log
	if c.replay && c.pos < len(l) {
		l = l[:c.pos]
	}
	for len(l) > 0 && l[len(l)-1] == 0 {
		l = l[:len(l)-1]
	}
	return l
}
