//go:build go1.24

package core

// Stream numbers: workload, schedule, fault.
const (
	SW = iota
	SS
	SF
	NStreams
)

// Choice is one recorded non-default decision.
type Choice struct {
	S uint8  `json:"s"` // stream
	I uint32 `json:"i"` // index of the decision within its stream
	V uint32 `json:"v"` // value (0 is the default and is not recorded)
}

// Chooser makes every decision of a run, from a seed or from a recording.
type Chooser struct {
	Seed   uint64
	replay bool
	rng    [NStreams]uint64
	rec    []Choice
	pos    [NStreams]uint32
	rep    [NStreams][]Choice
	repPos [NStreams]int

	// strategy
	mode      int
	pswitch   uint64 // out of 1<<16
	changeAt  []int64
	lowPrio   int
	lastG     *G
	consec    int
	stallOwn  bool
	stallP    uint64 // out of 1<<20
	stallLeft int
	stallMax  int64
	faultsOff bool
}

var ch *Chooser

func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func NewSeeded(seed uint64) *Chooser {
	c := &Chooser{Seed: seed}
	x := seed*0x2545F4914F6CDD1D + 0x1234567
	for i := range c.rng {
		c.rng[i] = splitmix(&x)
	}
	r := splitmix(&x)
	switch r % 8 {
	case 0:
		c.mode = 0 // run to block
		c.pswitch = 1 << 16 / 200
	case 1:
		c.mode, c.pswitch = 1, 1<<16/50
	case 2:
		c.mode, c.pswitch = 1, 1<<16/10
	case 3:
		c.mode, c.pswitch = 1, 1<<16/3
	case 4:
		c.mode, c.pswitch = 1, 1<<16*8/10
	default:
		c.mode = 2 // PCT
		d := int(splitmix(&x) % 6)
		span := []int64{60, 200, 600, 2000, 8000}[splitmix(&x)%5]
		for i := 0; i < d; i++ {
			c.changeAt = append(c.changeAt, int64(splitmix(&x)%uint64(span)))
		}
	}
	return c
}

// NewReplay makes a chooser that repeats the recorded decisions and takes the
// default everywhere else.
func NewReplay(seed uint64, choices []Choice) *Chooser {
	c := &Chooser{Seed: seed, replay: true}
	for _, x := range choices {
		c.rep[x.S] = append(c.rep[x.S], x)
	}
	for s := range c.rep {
		l := c.rep[s]
		for i := 1; i < len(l); i++ { // insertion sort: nearly sorted input
			for j := i; j > 0 && l[j].I < l[j-1].I; j-- {
				l[j], l[j-1] = l[j-1], l[j]
			}
		}
	}
	return c
}

func (c *Chooser) Recorded() []Choice { return c.rec }

func (c *Chooser) replayed(s int, i uint32, n uint32) uint32 {
	l := c.rep[s]
	p := c.repPos[s]
	for p < len(l) && l[p].I < i {
		p++
	}
	c.repPos[s] = p
	if p < len(l) && l[p].I == i {
		return l[p].V % n
	}
	return 0
}

// decide returns a value in [0,n): recorded, or produced by f.
func (c *Chooser) decide(s int, n uint32, f func() uint32) uint32 {
	i := c.pos[s]
	c.pos[s]++
	if n <= 1 {
		return 0
	}
	var v uint32
	if c.replay {
		v = c.replayed(s, i, n)
	} else {
		v = f()
	}
	if v != 0 {
		c.rec = append(c.rec, Choice{S: uint8(s), I: i, V: v})
	}
	return v
}

// W draws a workload value in [0,n); 0 is the simplest.
func W(n int) int {
	c := ch
	v := int(c.decide(SW, uint32(n), func() uint32 { return uint32(splitmix(&c.rng[SW]) % uint64(n)) }))
	mix(uint64(v))
	return v
}

// WBits draws a full 32-bit workload value.
func WBits() uint32 {
	c := ch
	v := c.decide(SW, 0xffffffff, func() uint32 { return uint32(splitmix(&c.rng[SW])) % 0xffffffff })
	return v
}

// WP is true with probability p (workload stream).
func WP(p float64) bool {
	c := ch
	return c.decide(SW, 2, func() uint32 {
		if float64(splitmix(&c.rng[SW])>>11)/(1<<53) < p {
			return 1
		}
		return 0
	}) == 1
}

// F decides whether a fault of the given kind happens, with probability p.
func F(kind string, p float64) bool {
	c := ch
	if p <= 0 || c.faultsOff {
		return false
	}
	v := c.decide(SF, 2, func() uint32 {
		if float64(splitmix(&c.rng[SF])>>11)/(1<<53) < p {
			return 1
		}
		return 0
	}) == 1
	if v {
		Counts.add(kind)
		Note("fault", "%s", kind)
	}
	return v
}

// FN draws a fault parameter in [0,n).
func FN(n int) int {
	c := ch
	return int(c.decide(SF, uint32(n), func() uint32 { return uint32(splitmix(&c.rng[SF]) % uint64(n)) }))
}

// StopFaults makes every later F return false and ends goroutine stalls.
func StopFaults() {
	ch.faultsOff = true
	ch.stallP = 0
	Note("faults", "faults stop")
}

// EnableStalls lets a goroutine of the code under test be delayed by up to
// max simulated nanoseconds at a yield point, at most n times per run.
func EnableStalls(p float64, n int, max int64) {
	ch.stallP = uint64(p * (1 << 20))
	ch.stallLeft = n
	ch.stallMax = max
	ch.stallOwn = false
}

// StallHarnessOnly restricts stalls to the goroutines of the application.
func StallHarnessOnly() { ch.stallOwn = true }

func (c *Chooser) stall() int64 {
	if c.stallLeft <= 0 {
		return 0
	}
	v := c.decide(SF, 9, func() uint32 {
		if splitmix(&c.rng[SF])&(1<<20-1) < c.stallP {
			return uint32(splitmix(&c.rng[SF])%8) + 1
		}
		return 0
	})
	if v == 0 {
		return 0
	}
	c.stallLeft--
	return c.stallMax * int64(v) / 8
}

func (c *Chooser) newPrio() int {
	if c.replay {
		return 0
	}
	return int(splitmix(&c.rng[SS])>>33) + 1000
}

const fairAfter = 3000

// schedule picks among the ready goroutines; self (if non-nil) is ready and
// currently running.
func (c *Chooser) schedule(self *G) *G {
	n := len(ready)
	tired := false
	if self != nil && self == c.lastG {
		c.consec++
		tired = c.consec > fairAfter
	} else {
		c.consec = 0
		c.lastG = self
	}
	if tired {
		c.consec = 0
		self = nil // fairness: choose among all, the default being the oldest other
	}
	// order: self first, then the others in the order they became ready
	at := func(i int) *G {
		if self == nil {
			if tired {
				// rotate so that the running goroutine is last
				k := 0
				for _, g := range ready {
					if g == c.lastG {
						continue
					}
					if k == i {
						return g
					}
					k++
				}
				return c.lastG
			}
			return ready[i]
		}
		if i == 0 {
			return self
		}
		k := 1
		for _, g := range ready {
			if g == self {
				continue
			}
			if k == i {
				return g
			}
			k++
		}
		return self
	}
	v := c.decide(SS, uint32(n), func() uint32 {
		if tired {
			return uint32(splitmix(&c.rng[SS]) % uint64(n-1))
		}
		switch c.mode {
		case 2:
			for k, at := range c.changeAt {
				if at >= 0 && steps >= at {
					c.changeAt[k] = -1
					if self != nil {
						c.lowPrio++
						self.prio = 500 - c.lowPrio
					}
				}
			}
			best, bi := -1<<60, 0
			for i := 0; i < n; i++ {
				if g := at(i); g.prio > best {
					best, bi = g.prio, i
				}
			}
			return uint32(bi)
		default:
			if self == nil {
				if c.mode == 0 && splitmix(&c.rng[SS])%4 != 0 {
					return 0
				}
				return uint32(splitmix(&c.rng[SS]) % uint64(n))
			}
			if splitmix(&c.rng[SS])&0xffff < c.pswitch {
				return uint32(splitmix(&c.rng[SS]) % uint64(n))
			}
			return 0
		}
	})
	return at(int(v))
}
