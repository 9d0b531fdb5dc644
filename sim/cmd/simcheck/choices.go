package main

// Ch is the stream of choices that decides one simulated run: the document,
// the operations, the faults and where they strike. In seeded mode the choices
// come from one integer and are recorded; in replay mode they come from a
// file. Zero is always the simplest choice, and a replay that runs out of
// choices goes on with zeros, so a recorded stream can be minimised by
// deleting and lowering numbers.
type Ch struct {
	rec    []uint32
	pos    int
	replay bool
	rng    uint64
}

func seeded(seed uint64) *Ch { return &Ch{rng: seed} }

func replayed(rec []uint32) *Ch { return &Ch{rec: rec, replay: true} }

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (c *Ch) next() uint64 {
	c.rng += 0x9e3779b97f4a7c15
	z := c.rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a number in [0, n).
func (c *Ch) N(n int) int {
	if n <= 1 {
		return 0
	}
	if c.replay {
		v := uint32(0)
		if c.pos < len(c.rec) {
			v = c.rec[c.pos]
		}
		c.pos++
		return int(v) % n
	}
	v := int(c.next() % uint64(n))
	c.rec = append(c.rec, uint32(v))
	return v
}

// P is true num times out of den.
func (c *Ch) P(num, den int) bool { return c.N(den) >= den-num }

func pick[T any](c *Ch, xs []T) T { return xs[c.N(len(xs))] }

// W picks an index with the given weights.
func (c *Ch) W(weights ...int) int {
	t := 0
	for _, w := range weights {
		t += w
	}
	v := c.N(t)
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}
