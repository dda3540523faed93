package dsim

// Choices: every nondeterministic decision of a run is an integer drawn from
// one of three streams, all derived from one seed.  Value 0 is always the
// benign decision (no fault, no preemption, first alternative), so a shorter
// or zeroed stream is a simpler run, and a stream that runs dry stays benign.

const (
	Work     = 0 // workload: which operations, which data
	Fault    = 1 // which faults, when, how long
	Sched    = 2 // who runs, for how long; select/map order
	nStreams = 3
)

var StreamNames = [nStreams]string{"work", "fault", "sched"}

type Stream struct {
	state    uint64
	Rec      []int
	replay   []int
	isReplay bool
	pos      int
}

func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func newStream(seed uint64, id int) *Stream {
	s := &Stream{state: seed*0x9e3779b97f4a7c15 + uint64(id+1)*0xd1b54a32d192ed03}
	splitmix(&s.state)
	return s
}

func (s *Stream) raw(n int) int { return int(splitmix(&s.state) % uint64(n)) }

func (s *Stream) take(gen func() int, n int) int {
	var v int
	if s.isReplay {
		if s.pos < len(s.replay) {
			v = s.replay[s.pos]
			if v < 0 {
				v = -v
			}
			if v >= n {
				v %= n
			}
		}
		s.pos++
	} else {
		v = gen()
	}
	s.Rec = append(s.Rec, v)
	return v
}

// Intn draws 0..n-1 uniformly.
func (s *Stream) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return s.take(func() int { return s.raw(n) }, n)
}

// Pct is true with probability p/1000 (recorded as 0/1).
func (s *Stream) Permille(p int) bool {
	if p <= 0 {
		return false
	}
	return s.take(func() int {
		if s.raw(1000) < p {
			return 1
		}
		return 0
	}, 2) == 1
}

// Weighted draws an index with the given weights; index 0 is the benign one.
func (s *Stream) Weighted(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	if t == 0 {
		return 0
	}
	return s.take(func() int {
		r := s.raw(t)
		for i, x := range w {
			if r < x {
				return i
			}
			r -= x
		}
		return 0
	}, len(w))
}

// Geom draws a geometric-ish gap with the given mean (>=1); 0 when dry means
// "no further preemption".
func (s *Stream) Geom(mean int) int {
	if mean <= 0 {
		return 0
	}
	return s.take(func() int {
		if mean == 1 {
			return 1 + s.raw(2)
		}
		// sum of two uniforms skewed small, plus a long tail
		r := s.raw(100)
		switch {
		case r < 50:
			return 1 + s.raw(mean)
		case r < 90:
			return 1 + s.raw(2*mean)
		default:
			return 1 + s.raw(8*mean)
		}
	}, 1<<30)
}

// Range draws lo..hi inclusive, lo being benign.
func (s *Stream) Range(lo, hi int) int { return lo + s.Intn(hi-lo+1) }
