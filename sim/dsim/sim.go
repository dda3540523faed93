// Package dsim is a deterministic simulator for Go programs.
//
// A run executes inside a testing/synctest bubble with GOMAXPROCS=1.  The
// program under test has been rewritten (see ../rewrite) so that every go
// statement, channel operation, select, mutex, timer, sleep, clock read and
// map iteration goes through this package.  Exactly one simulated goroutine
// holds the token at any moment; which one gets it next, and for how many
// yield points, is drawn from the Sched stream of one seed.
package dsim

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"
)

type gstate int

const (
	gReady   gstate = iota // wants the token
	gRunning               // has the token
	gBlocked               // waiting for a dsim object (mutex, condition, sleep)
	gNative                // inside a native channel operation
	gLost                  // blocked inside third-party code while holding the token
	gDead
)

type G struct {
	ID     int
	Name   string
	state  gstate
	wake   chan struct{}
	why    string
	vc     VC
	slot   int // of vector clocks
	goid   uint64
	stall  time.Time // not scheduled before this (stall fault)
	prio   int       // PCT
	spin   int       // yields since time last moved or the goroutine last blocked
	exits  bool
	Tag    any
	blkAt  time.Time
	since  time.Time
	Daemon bool
}

type timer struct {
	at    time.Time
	seq   int
	fire  func()
	dead  bool
	gid   int
	index int
}

type Config struct {
	Seed      uint64
	Replay    [][]int // nil: draw from seed
	Horizon   time.Duration
	Strategy  int // 0 run-to-block, 1 random, 2 PCT, 3 random only at synchronisation points
	Gap       int // mean yields between preemptions
	PCTDepth  int
	StallPm   int           // permille chance, at a preemption point, that the goroutine is stalled
	StallMax  time.Duration // longest stall
	RaceOn    bool
	StepLimit int
	SpinLimit int
	Trace     bool
}

type Sim struct {
	Cfg       Config
	St        [nStreams]*Stream
	gs        []*G
	cur       *G
	last      *G
	ready     []*G
	nAlive    int
	maxAlive  int
	timers    []*timer
	tseq      int
	notify    chan struct{}
	idle      bool
	abortCh   chan struct{}
	aborted   bool
	stop      bool
	countdown int
	Steps     int // yield points executed
	Switches  int
	start     time.Time
	wall      time.Duration // wall clock offset (clock jumps)
	Hash      uint64        // event-log hash
	Inter     uint64        // interleaving signature
	RaceOn    bool
	shadows   shadowMap
	races     map[string]bool
	Races     []string
	OnRace    func(string)
	deadVC    VC
	nSlots    int
	freeSlots []freeSlot
	names     []string // of every goroutine so far, by ID
	chVC      map[any]*VC
	atomVC    VC
	lost      int
	Log       []string
	Faults    map[string]int
	Probes    map[string]int
	Crashes   []string
	Quiesce   func() bool // called when nothing is runnable and no dsim timer is due
	pctPts    map[int]bool
	pctLow    int
	Spun      string
	OnTick    func() // called by the scheduler after every step: invariants
	ended     string
	AtEnd     []string // goroutines alive when the run ended
}

// stepCount is a heartbeat across runs, read by an outside watchdog.
var stepCount uint64

func StepCount() uint64 { return atomic.LoadUint64(&stepCount) }

// S is the running simulation, nil outside one.
var S *Sim

func (s *Sim) gname(id int) string {
	if id < len(s.names) {
		return fmt.Sprintf("g%d(%s)", id, s.names[id])
	}
	return fmt.Sprintf("g%d", id)
}

func New(cfg Config) *Sim {
	s := &Sim{Cfg: cfg, Faults: map[string]int{}, Probes: map[string]int{}, Hash: 1469598103934665603, Inter: 1469598103934665603}
	for i := range s.St {
		s.St[i] = newStream(cfg.Seed, i)
		if cfg.Replay != nil {
			s.St[i].isReplay = true
			if i < len(cfg.Replay) {
				s.St[i].replay = cfg.Replay[i]
			}
		}
	}
	return s
}

func mix(h *uint64, v uint64) { *h = (*h ^ v) * 1099511628211; *h ^= *h >> 29 }

func (s *Sim) Note(kind string, vals ...any) {
	for i := 0; i < len(kind); i++ {
		mix(&s.Hash, uint64(kind[i]))
	}
	for _, v := range vals {
		switch v := v.(type) {
		case int:
			mix(&s.Hash, uint64(v))
		case string:
			for i := 0; i < len(v); i++ {
				mix(&s.Hash, uint64(v[i]))
			}
		default:
			str := fmt.Sprint(v)
			for i := 0; i < len(str); i++ {
				mix(&s.Hash, uint64(str[i]))
			}
		}
	}
	mix(&s.Hash, uint64(time.Since(s.start)))
	s.log(kind, vals...)
}

// log writes the event log; it must not influence the run.
func (s *Sim) log(kind string, vals ...any) {
	if s.Cfg.Trace && len(s.Log) < 20000 {
		name := "-"
		if s.cur != nil {
			name = fmt.Sprintf("g%d/%s", s.cur.ID, s.cur.Name)
		}
		var b strings.Builder
		fmt.Fprintf(&b, "t=%-12v step=%-6d %-18s %s", time.Since(s.start), s.Steps, name, kind)
		for _, v := range vals {
			fmt.Fprintf(&b, " %v", v)
		}
		s.Log = append(s.Log, b.String())
	}
}

// Note records an event in the running simulation's log.
func Note(kind string, vals ...any) {
	if S != nil && !S.aborted {
		S.Note(kind, vals...)
	}
}

func (s *Sim) Fired(fault string) {
	s.Faults[fault]++
	s.Note("FAULT", fault)
}

func (s *Sim) Probe(name string) { s.Probes[name]++ }

func (s *Sim) Elapsed() time.Duration { return time.Since(s.start) }

func (s *Sim) Aborted() bool { return s.aborted }

// Run executes root as the first simulated goroutine and returns when root and
// every non-daemon simulated goroutine have ended, Stop was called, nothing
// can run any more, or a limit was reached.  Must be called inside a bubble.
func (s *Sim) Run(root func()) string {
	if S != nil {
		panic("dsim: nested Run")
	}
	s.start = time.Now()
	s.notify = make(chan struct{}, 1)
	s.abortCh = make(chan struct{})
	s.RaceOn = s.Cfg.RaceOn
	s.shadows = shadowMap{}
	s.races = map[string]bool{}
	s.chVC = map[any]*VC{}
	if s.Cfg.StepLimit == 0 {
		s.Cfg.StepLimit = 20_000_000
	}
	if s.Cfg.SpinLimit == 0 {
		s.Cfg.SpinLimit = 3_000_000
	}
	s.pctPts = map[int]bool{}
	if s.Cfg.Strategy == 2 {
		for i := 0; i < s.Cfg.PCTDepth; i++ {
			s.pctPts[s.St[Sched].Range(1, 60*max(1, s.Cfg.Gap))] = true
		}
	}
	s.resetCountdown()
	S = s
	defer func() { S = nil }()
	s.spawn("main", root)
	s.loop()
	s.AtEnd = s.Blocked()
	s.teardown()
	return s.ended
}

func (s *Sim) loop() {
	for {
		synctest.Wait()
		if s.cur != nil && s.cur.state == gRunning {
			// blocked natively inside third-party code
			s.cur.state = gLost
			s.lost++
			s.Note("lost", s.cur.ID)
		}
		s.cur = nil
		if s.OnTick != nil && !s.stop {
			s.OnTick()
		}
		if s.stop {
			if s.ended == "" {
				s.ended = "stopped"
			}
			return
		}
		if s.Steps > s.Cfg.StepLimit {
			s.ended = "steps"
			return
		}
		now := time.Now()
		run := s.ready[:0]
		var soonest time.Time
		dead := 0
		for _, g := range s.gs {
			if g.state != gReady {
				if g.state == gDead {
					dead++
				}
				continue
			}
			if g.stall.After(now) {
				if soonest.IsZero() || g.stall.Before(soonest) {
					soonest = g.stall
				}
				continue
			}
			run = append(run, g)
		}
		s.ready = run
		if dead > 64 && 2*dead > len(s.gs) {
			s.gs = slices.DeleteFunc(s.gs, func(g *G) bool { return g.state == gDead })
		}
		// due timers compete with runnable goroutines: fire one before running
		if t := s.dueTimer(now); t != nil {
			t.dead = true
			s.cur = nil
			t.fire()
			continue
		}
		if len(run) == 0 {
			if s.done() {
				s.ended = "done"
				return
			}
			if s.Quiesce != nil && soonest.IsZero() && len(s.timers) == 0 {
				if s.Quiesce() {
					continue
				}
			}
			limit := s.start.Add(s.Cfg.Horizon)
			next := limit
			if t := s.nextTimer(); t != nil && t.at.Before(next) {
				next = t.at
			}
			if !soonest.IsZero() && soonest.Before(next) {
				next = soonest
			}
			if !now.Before(limit) {
				s.ended = "horizon"
				return
			}
			s.idle = true
			tm := time.NewTimer(next.Sub(now))
			select {
			case <-s.notify:
			case <-tm.C:
			}
			tm.Stop()
			s.idle = false
			select {
			case <-s.notify:
			default:
			}
			if !time.Now().Equal(now) {
				for _, g := range s.gs {
					g.spin = 0
				}
			}
			continue
		}
		g := s.pick(run)
		s.Switches++
		if g != s.last {
			mix(&s.Inter, uint64(g.ID)<<32|uint64(uint32(s.Steps)))
			mix(&s.Hash, uint64(g.ID)<<40|uint64(uint32(s.Steps)))
			if s.Cfg.Trace {
				s.log("run", g.ID, g.Name, g.why)
			}
		}
		s.last = g
		s.cur = g
		g.state = gRunning
		g.wake <- struct{}{}
	}
}

func (s *Sim) done() bool {
	for _, g := range s.gs {
		if g.state != gDead && !g.Daemon {
			return false
		}
	}
	return true
}

func (s *Sim) pick(run []*G) *G {
	if len(run) == 1 {
		return run[0]
	}
	switch s.Cfg.Strategy {
	case 0:
		// run-to-block: keep the last one, else round robin
		for _, g := range run {
			if g == s.last {
				return g
			}
		}
		li := -1
		if s.last != nil {
			li = s.last.ID
		}
		for _, g := range run {
			if g.ID > li {
				return g
			}
		}
		return run[0]
	case 2:
		best := run[0]
		for _, g := range run[1:] {
			if g.prio > best.prio {
				best = g
			}
		}
		return best
	}
	// 0 = stay with the last goroutine if it can run
	order := run
	for i, g := range run {
		if g == s.last && i != 0 {
			order = append([]*G{g}, append(append([]*G{}, run[:i]...), run[i+1:]...)...)
			break
		}
	}
	return order[s.St[Sched].Intn(len(order))]
}

func (s *Sim) dueTimer(now time.Time) *timer {
	var cand []*timer
	live := s.timers[:0]
	for _, t := range s.timers {
		if t.dead {
			continue
		}
		live = append(live, t)
		if !t.at.After(now) {
			cand = append(cand, t)
		}
	}
	s.timers = live
	if len(cand) == 0 {
		return nil
	}
	sort.Slice(cand, func(i, j int) bool {
		if !cand[i].at.Equal(cand[j].at) {
			return cand[i].at.Before(cand[j].at)
		}
		return cand[i].seq < cand[j].seq
	})
	if len(cand) > 1 && s.Cfg.Strategy != 0 {
		return cand[s.St[Sched].Intn(len(cand))]
	}
	return cand[0]
}

func (s *Sim) nextTimer() *timer {
	var best *timer
	for _, t := range s.timers {
		if !t.dead && (best == nil || t.at.Before(best.at)) {
			best = t
		}
	}
	return best
}

func (s *Sim) addTimer(d time.Duration, f func()) *timer {
	if d < 0 {
		d = 0
	}
	s.tseq++
	t := &timer{at: time.Now().Add(d), seq: s.tseq, fire: f}
	s.timers = append(s.timers, t)
	return t
}

func (s *Sim) resetCountdown() {
	switch s.Cfg.Strategy {
	case 0:
		s.countdown = 1 << 60
	case 2:
		s.countdown = 1 << 60
	default:
		g := s.St[Sched].Geom(s.Cfg.Gap)
		if g == 0 {
			g = 1 << 60
		}
		s.countdown = g
	}
}

// ---- goroutines

func goid() uint64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	var id uint64
	for _, c := range b[10:n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + uint64(c-'0')
	}
	return id
}

func (s *Sim) spawn(name string, f func()) *G {
	g := &G{ID: len(s.names), Name: name, wake: make(chan struct{}, 1), state: gReady, why: "start", since: time.Now()}
	if s.Cfg.Strategy == 2 {
		g.prio = 1000 + s.St[Sched].Intn(1000)
	}
	if s.cur != nil {
		g.vc = s.cur.vc.clone()
		s.cur.tick()
	}
	s.takeSlot(g)
	g.tick()
	s.names = append(s.names, name)
	s.gs = append(s.gs, g)
	s.nAlive++
	if s.nAlive > s.maxAlive {
		s.maxAlive = s.nAlive
	}
	go func() {
		g.goid = goid()
		defer func() {
			if r := recover(); r != nil {
				if !s.aborted {
					s.crash(g, r, debug.Stack())
				}
			}
			if !s.aborted {
				s.deadVC.join(g.vc)
				s.freeSlots = append(s.freeSlots, freeSlot{g.slot, g.vc.at(g.slot)})
				s.nAlive--
				s.Note("exit", g.ID, g.Name)
			}
			if g.state == gLost {
				s.lost--
			}
			g.state = gDead
			s.poke()
		}()
		<-g.wake
		if s.aborted {
			return
		}
		f()
	}()
	return g
}

func (s *Sim) crash(g *G, r any, stack []byte) {
	msg := fmt.Sprintf("panic in %s: %v", g.Name, r)
	s.Note("CRASH", msg)
	s.Crashes = append(s.Crashes, msg+"\n"+trimStack(string(stack)))
	s.stop = true
	s.ended = "crash"
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "\t") || strings.Contains(l, "dsim.") || strings.HasPrefix(l, "runtime") || strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "goroutine ") {
			continue
		}
		if j := strings.LastIndex(l, "("); j > 0 {
			l = l[:j]
		}
		loc := strings.TrimSpace(lines[i+1])
		if j := strings.LastIndex(loc, "/"); j >= 0 {
			loc = loc[j+1:]
		}
		if j := strings.Index(loc, " "); j >= 0 {
			loc = loc[:j]
		}
		out = append(out, l+" "+loc)
		if len(out) >= 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (s *Sim) poke() {
	if s.idle {
		select {
		case s.notify <- struct{}{}:
		default:
		}
	}
}

// me returns the calling goroutine's G, or nil for a foreign goroutine.
func (s *Sim) me() *G {
	if s.lost == 0 && s.cur != nil && s.cur.state == gRunning {
		return s.cur
	}
	id := goid()
	if s.cur != nil && s.cur.goid == id {
		return s.cur
	}
	for _, g := range s.gs {
		if g.goid == id && g.state != gDead {
			if g.state == gLost {
				s.lost--
				s.acquireAll(g)
				s.park(g, gReady, "back")
			}
			return g
		}
	}
	return nil
}

// park gives up the token in the given state and waits for it.
func (s *Sim) park(g *G, st gstate, why string) {
	if s.aborted {
		s.exit(g)
		return
	}
	g.state = st
	g.why = why
	if st != gReady {
		g.spin = 0
		g.blkAt = time.Now()
	}
	s.poke()
	<-g.wake
	if s.aborted {
		s.exit(g)
	}
}

func (s *Sim) exit(g *G) {
	if !g.exits {
		g.exits = true
		runtime.Goexit()
	}
}

func (s *Sim) makeReady(g *G) {
	if g.state == gBlocked {
		g.state = gReady
	}
}

// Stop ends the run after the current step.
func (s *Sim) Stop(reason string) {
	if !s.stop {
		s.stop = true
		s.ended = reason
	}
}

func (s *Sim) teardown() {
	s.aborted = true
	s.cur = nil
	close(s.abortCh)
	synctest.Wait()
	for _, g := range s.gs {
		if g.state == gDead || g.state == gLost {
			continue
		}
		s.cur = g
		g.wake <- struct{}{}
		synctest.Wait()
		s.cur = nil
	}
}

// Blocked describes goroutines that have not ended.
func (s *Sim) Blocked() []string {
	var out []string
	for _, g := range s.gs {
		if g.state != gDead {
			out = append(out, fmt.Sprintf("g%d(%s) %s", g.ID, g.Name, g.why))
		}
	}
	return out
}

// Alive lists live goroutines except the caller.
func (s *Sim) Alive() []*G {
	var out []*G
	for _, g := range s.gs {
		if g.state != gDead && g != s.cur {
			out = append(out, g)
		}
	}
	return out
}

func (g *G) Why() string { return g.why }

// Y is a yield point.
func Y() {
	s := S
	if s == nil {
		return
	}
	s.Steps++
	stepCount++
	s.countdown--
	if s.countdown <= 0 || s.lost > 0 || s.Steps&0xfff == 0 || s.Cfg.Strategy == 2 || s.aborted {
		s.slowYield()
	}
}

// Watch is a yield point of code that shares nothing: it is never preempted
// there, but does not loop unnoticed.
func Watch() {
	s := S
	if s == nil {
		return
	}
	s.Steps++
	stepCount++
	if s.Steps&0xfff == 0 || s.aborted {
		c := s.countdown
		if s.countdown <= 0 {
			s.countdown = 1
		}
		s.slowYield()
		s.countdown = c
	}
}

// point is a yield at a synchronisation operation: preemption is likelier.
func (s *Sim) point(why string) *G {
	g := s.me()
	if g == nil || s.aborted {
		if s.aborted && g != nil {
			s.exit(g)
		}
		return g
	}
	s.Steps++
	stepCount++
	s.countdown -= 1 + s.Cfg.Gap/4
	if s.countdown <= 0 || s.Cfg.Strategy == 2 {
		s.preempt(g, why)
	}
	return g
}

func (s *Sim) slowYield() {
	g := s.me()
	if g == nil {
		return
	}
	if s.aborted {
		s.exit(g)
		return
	}
	if s.Steps&0xfff == 0 {
		g.spin += 0x1000
		if g.spin > s.Cfg.SpinLimit {
			s.Spun = fmt.Sprintf("g%d(%s) executed %d steps without blocking", g.ID, g.Name, g.spin)
			s.Note("SPIN", s.Spun)
			s.Crashes = append(s.Crashes, "endless loop: "+s.Spun+"\n"+trimStack(string(debug.Stack())))
			s.stop = true
			s.ended = "spin"
			s.park(g, gReady, "spin")
			return
		}
	}
	if s.countdown <= 0 || s.Cfg.Strategy == 2 {
		s.preempt(g, "yield")
	}
}

// maxStalls of a run: a loop over thousands of cells would otherwise take
// simulated hours on a slow machine.
const maxStalls = 1500

func (s *Sim) preempt(g *G, why string) {
	if s.Cfg.Strategy == 2 {
		if s.pctPts[s.Steps/8] {
			delete(s.pctPts, s.Steps/8)
			s.pctLow--
			g.prio = s.pctLow
			s.park(g, gReady, why)
		}
		return
	}
	s.resetCountdown()
	if s.Cfg.StallPm > 0 && s.Faults["thread-stall"] < maxStalls && s.St[Fault].Permille(s.Cfg.StallPm) {
		ms := s.St[Fault].Range(1, int(s.Cfg.StallMax/time.Millisecond))
		g.stall = time.Now().Add(time.Duration(ms) * time.Millisecond)
		s.Fired("thread-stall")
	}
	s.park(g, gReady, why)
}

// Go replaces the go statement.
func Go(name string, f func()) {
	s := S
	if s == nil {
		go f()
		return
	}
	if s.aborted {
		return
	}
	g := s.me()
	if g == nil { // foreign goroutine
		s.spawnForeign(name, f)
		return
	}
	s.spawn(name, f)
	s.point("go")
}

func (s *Sim) spawnForeign(name string, f func()) {
	g := s.spawn(name, f)
	s.acquireAll(g)
}

// GoDaemon starts a goroutine whose survival does not keep the run alive.
func GoDaemon(name string, f func()) {
	s := S
	g := s.spawn(name, f)
	g.Daemon = true
}

// ---- clock

// Self is the identity of the running goroutine.
func Self() int {
	if s := S; s != nil {
		if g := s.me(); g != nil {
			return g.ID
		}
	}
	return -1
}

// Now is the simulated wall clock (it may be made to jump).
func Now() time.Time {
	s := S
	if s == nil {
		return time.Now()
	}
	return time.Now().Round(0).Add(s.wall)
}

// Clock is Now for the program under test: where threads may be stalled, one
// may also be right after it read the clock, so that what it read is old when
// it is used.
func Clock() time.Time {
	t := Now()
	if s := S; s != nil && s.Cfg.StallPm > 0 && !s.aborted {
		if g := s.me(); g != nil && s.St[Fault].Permille(10) {
			max := int(s.Cfg.StallMax / time.Millisecond)
			if max > 40 {
				max = 40
			}
			g.stall = time.Now().Add(time.Duration(s.St[Fault].Range(1, max)) * time.Millisecond)
			s.Fired("stall-after-clock-read")
			s.park(g, gReady, "clock")
		}
	}
	return t
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// JumpWall moves the wall clock without moving timers.
func (s *Sim) JumpWall(d time.Duration) { s.wall += d }
func (s *Sim) Wall() time.Duration      { return s.wall }

func Sleep(d time.Duration) {
	s := S
	if s == nil {
		time.Sleep(d)
		return
	}
	g := s.me()
	if g == nil {
		time.Sleep(d)
		return
	}
	if s.aborted {
		s.exit(g)
		return
	}
	if d <= 0 {
		s.point("sleep0")
		return
	}
	s.addTimer(d, func() { s.makeReady(g) })
	s.park(g, gBlocked, "sleep")
}

// SleepUntil blocks until the absolute simulated time since start.
func SleepUntil(at time.Duration) {
	if d := at - S.Elapsed(); d > 0 {
		Sleep(d)
	}
}

// WaitFor parks the caller until pred holds (checked after every scheduling
// step it is woken by Wake) or the timeout passes; returns pred().
type Event struct {
	waiters []*G
	vc      VC
}

func (e *Event) Wait(d time.Duration) {
	s := S
	g := s.me()
	if s.aborted || g == nil {
		if g != nil {
			s.exit(g)
		}
		return
	}
	e.waiters = append(e.waiters, g)
	var t *timer
	if d > 0 {
		t = s.addTimer(d, func() { s.makeReady(g) })
	}
	s.park(g, gBlocked, "event")
	if t != nil {
		t.dead = true
	}
	for i, w := range e.waiters {
		if w == g {
			e.waiters = append(e.waiters[:i], e.waiters[i+1:]...)
			break
		}
	}
	s.acquire(e.vc)
}

func (e *Event) Wake() {
	s := S
	if s == nil || s.aborted {
		return
	}
	s.release(&e.vc)
	for _, w := range e.waiters {
		s.makeReady(w)
	}
	e.waiters = nil
}

type Timer struct {
	C <-chan time.Time
	c chan time.Time
	t *timer
	f func()
}

func (s *Sim) tickSend(c chan time.Time) func() {
	return func() {
		select {
		case c <- time.Now().Round(0).Add(s.wall):
		default:
		}
	}
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	if s := S; s != nil {
		t.t = s.addTimer(d, s.tickSend(c))
	}
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{}
	s := S
	if s == nil {
		return t
	}
	var vc VC
	if s.cur != nil {
		vc = s.cur.vc.clone()
		s.cur.tick()
	}
	t.f = func() {
		g := s.spawn("AfterFunc", f)
		g.vc.join(vc)
	}
	t.t = s.addTimer(d, t.f)
	return t
}

func (t *Timer) Stop() bool {
	if t.t == nil {
		return false
	}
	was := !t.t.dead
	t.t.dead = true
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	if s := S; s != nil {
		f := t.f
		if f == nil {
			f = s.tickSend(t.c)
		}
		t.t = s.addTimer(d, f)
	}
	return was
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	t    *timer
	d    time.Duration
	next time.Time
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d, next: time.Now()}
	t.arm()
	return t
}

func (t *Ticker) arm() {
	s := S
	if s == nil || s.aborted {
		return
	}
	t.next = t.next.Add(t.d)
	send := s.tickSend(t.c)
	t.t = s.addTimer(time.Until(t.next), func() { send(); t.arm() })
}

func (t *Ticker) Stop() {
	if t.t != nil {
		t.t.dead = true
	}
}

func (t *Ticker) Reset(d time.Duration) {
	t.Stop()
	t.d = d
	t.next = time.Now()
	t.arm()
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

var _ = atomic.AddInt32
var _ sync.Mutex

// Start is the bubble time at which the run started.
func (s *Sim) Start() time.Time { return s.start }
