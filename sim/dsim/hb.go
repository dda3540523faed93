package dsim

import (
	"fmt"
	"unsafe"
)

// Happens-before tracking.  Every simulated goroutine carries a vector clock;
// instrumented synchronisation transfers clocks; instrumented accesses to
// shared memory (struct fields, captured variables, slice elements, maps) are
// compared against the last accesses.  Two accesses by different goroutines,
// one of them a write, with no chain of synchronisation between them, are a
// data race - whether or not this schedule made them collide.

type VC []uint32

func (a *VC) join(b VC) {
	if len(b) > len(*a) {
		n := make(VC, len(b))
		copy(n, *a)
		*a = n
	}
	for i, v := range b {
		if v > (*a)[i] {
			(*a)[i] = v
		}
	}
}

func (a VC) at(i int) uint32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}

func (a VC) clone() VC { return append(VC(nil), a...) }

type access struct {
	slot int
	gid  int
	clk  uint32
	site string
}

type shadow struct {
	w     access
	hasW  bool
	reads []access
}

type shadowMap map[unsafe.Pointer]*shadow

func (g *G) tick() {
	for len(g.vc) <= g.slot {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.slot]++
}

// keepSlots is how many clock slots of ended goroutines are left alone before
// the oldest is handed to a new goroutine.  Its clock goes on from where the
// ended one stopped, so reuse can hide a race between the two, never invent
// one; and clocks stay short in code that keeps spawning goroutines.
const keepSlots = 256

func (s *Sim) takeSlot(g *G) {
	if len(s.freeSlots) > keepSlots {
		f := s.freeSlots[0]
		s.freeSlots = s.freeSlots[1:]
		g.slot = f.slot
		for len(g.vc) <= g.slot {
			g.vc = append(g.vc, 0)
		}
		g.vc[g.slot] = max(g.vc[g.slot], f.clk)
		return
	}
	g.slot = s.nSlots
	s.nSlots++
}

type freeSlot struct {
	slot int
	clk  uint32
}

// release publishes g's history into the clock of a synchronisation object.
func (s *Sim) release(vc *VC) {
	g := s.cur
	if g == nil || s.aborted {
		return
	}
	vc.join(g.vc)
	g.tick()
}

func (s *Sim) acquire(vc VC) {
	g := s.cur
	if g == nil || s.aborted {
		return
	}
	g.vc.join(vc)
}

// acquireAll is used when the synchronisation partner is unknown (third-party
// code): it orders the goroutine after everything so far.  It can hide a race,
// it can never invent one.
func (s *Sim) acquireAll(g *G) {
	for _, o := range s.gs {
		if o.state != gDead {
			g.vc.join(o.vc)
		}
	}
	g.vc.join(s.deadVC)
}

func (s *Sim) record(p unsafe.Pointer, site string, write bool) {
	g := s.cur
	if g == nil || s.aborted || s.nAlive < 2 && s.maxAlive < 2 {
		return
	}
	sh := s.shadows[p]
	if sh == nil {
		sh = &shadow{}
		s.shadows[p] = sh
	}
	clk := g.vc.at(g.slot)
	if sh.hasW && sh.w.slot != g.slot && sh.w.clk > g.vc.at(sh.w.slot) {
		s.race(site, sh.w.site, write, true, g.ID, sh.w.gid)
	}
	if write {
		for _, r := range sh.reads {
			if r.slot != g.slot && r.clk > g.vc.at(r.slot) {
				s.race(site, r.site, true, false, g.ID, r.gid)
			}
		}
		sh.w = access{g.slot, g.ID, clk, site}
		sh.hasW = true
		sh.reads = sh.reads[:0]
		return
	}
	for i := range sh.reads {
		if sh.reads[i].slot == g.slot {
			sh.reads[i].gid = g.ID
			sh.reads[i].clk = clk
			sh.reads[i].site = site
			return
		}
	}
	sh.reads = append(sh.reads, access{g.slot, g.ID, clk, site})
}

func (s *Sim) race(a, b string, aw, bw bool, ga, gb int) {
	kind := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	if b < a {
		a, b, aw, bw, ga, gb = b, a, bw, aw, gb, ga
	}
	key := a + "|" + b
	if s.races[key] {
		return
	}
	s.races[key] = true
	s.Races = append(s.Races, fmt.Sprintf("%s of %s by %s unordered with %s of %s by %s", kind(aw), a, s.gname(ga), kind(bw), b, s.gname(gb)))
	if s.OnRace != nil {
		s.OnRace(s.Races[len(s.Races)-1])
	}
}

// R and W record an access and return the pointer unchanged.
func R[T any](p *T, site string) *T {
	if s := S; s != nil && s.RaceOn {
		if unsafe.Sizeof(*p) != 0 {
			s.record(unsafe.Pointer(p), site, false)
		}
	}
	return p
}

func W[T any](p *T, site string) *T {
	if s := S; s != nil && s.RaceOn {
		if unsafe.Sizeof(*p) != 0 {
			s.record(unsafe.Pointer(p), site, true)
		}
	}
	return p
}

type iface struct{ typ, data unsafe.Pointer }

func mapPtr[M any](m M) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&m)) }

// MR/MW mark a read/write of a map's structure and return the map.
func MR[M ~map[K]V, K comparable, V any](m M, site string) M {
	if s := S; s != nil && s.RaceOn && m != nil {
		s.record(mapPtr(m), site, false)
	}
	return m
}

func MW[M ~map[K]V, K comparable, V any](m M, site string) M {
	if s := S; s != nil && s.RaceOn && m != nil {
		s.record(mapPtr(m), site, true)
	}
	return m
}
