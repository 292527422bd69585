//go:build go1.23

package zzverifsim

// Choices is the single source of every decision of a run: either drawn from a
// PRNG seeded with one integer, or replayed from a recorded list. Every value
// drawn is recorded, so that a run can be replayed and minimised. 0 is always
// the simplest choice.
type Choices struct {
	seed   uint64
	state  uint64
	rec    []uint32
	replay []uint32
	isRep  bool
	pos    int
}

func newChoices(seed uint64) *Choices {
	return &Choices{seed: seed, state: mix(seed ^ 0x9e3779b97f4a7c15)}
}

func replayChoices(seed uint64, vals []uint32) *Choices {
	return &Choices{seed: seed, replay: vals, isRep: true}
}

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (c *Choices) next() uint64 {
	c.state += 0x9e3779b97f4a7c15
	return mix(c.state)
}

// N returns a number in [0,n).
func (c *Choices) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if c.isRep {
		if c.pos < len(c.replay) {
			v = c.replay[c.pos] % uint32(n)
		}
		c.pos++
	} else {
		v = uint32(c.next() % uint64(n))
	}
	c.rec = append(c.rec, v)
	return int(v)
}

// P returns true with probability num/den (0 means false).
func (c *Choices) P(num, den int) bool { return c.N(den) >= den-num }

// Range returns a number in [lo,hi].
func (c *Choices) Range(lo, hi int) int { return lo + c.N(hi-lo+1) }

// Pick returns one of the strings (the first is the simplest).
func (c *Choices) Pick(s ...string) string { return s[c.N(len(s))] }

// Weighted picks an index with the given weights.
func (c *Choices) Weighted(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	v := c.N(t)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return len(w) - 1
}
