package h

import (
	"errors"
	"fmt"
	"github.com/prometheus/prometheus/promql/parser"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/gdamore/tcell"
	"github.com/mattn/go-runewidth"
	"sigs.k8s.io/instrumentation-tools/cmd/cli"
	"sigs.k8s.io/instrumentation-tools/promq/prom"
	"verif.local/sim/dsim"
)

// Scenario "session": the whole continuous command, from its flags to the
// terminal, with a user at the keyboard, failing targets, clock jumps, stalls
// and a terminal that changes its size.

func init() {
	register(&Scenario{Name: "session", Conf: func(r *R) { r.S.Cfg.Horizon = 2 * time.Hour; r.S.Cfg.StepLimit = 120e6 }, Main: sessionMain, Post: keysPost})
}

type session struct {
	*keysWorld
	r              *R
	net            *Net
	scr            *Screen
	period, window time.Duration
	jumped         bool
	rounds         [][]*Req
	returned       bool
	ended          time.Duration
	err            error
	query          string // accepted last
	known          bool   // whether the query in force is known
	plain          bool   // it is a plain selector
	hues           map[string]string
	digits         bool // a series of the query has digits in its title
	unk            int
	stalls         bool
	stallPm        int
}

func noSpace(s string) string {
	return strings.Map(func(c rune) rune {
		if c == ' ' || c == '\n' || c == '\t' {
			return -1
		}
		return c
	}, s)
}

// area is the visible text of a part of the screen.
func (s *Screen) area(x, y, w, h int) string {
	var b strings.Builder
	for i := y; i < y+h && i < s.vh; i++ {
		b.WriteString(s.span(x, i, w))
	}
	return noSpace(b.String())
}

func (w *session) dock() int {
	if w.scr.vh-1 < 9 {
		return w.scr.vh - 1
	}
	return 9
}

// small tells whether too little of the prompt is visible to read it.
func (w *session) small() bool {
	return w.scr.Shows > 0 && (w.dock() < 4 || w.scr.vw < 12)
}

func (w *session) gone() bool { return w.returned || w.scr.fini }

func (w *session) key(k tcell.Key) bool { return w.scr.key(tcell.NewEventKey(k, 0, 0)) }

func (w *session) typ(s string) {
	wk := w.r.W
	fast := wk.Intn(3)
	for _, c := range s {
		if w.gone() || !w.scr.key(tcell.NewEventKey(tcell.KeyRune, c, 0)) {
			return
		}
		if fast > 0 && wk.Permille(300) {
			dsim.Sleep(ms(wk.Intn(30 * fast)))
		}
	}
}

// valid tells whether the language accepts the query for a chart.
func (w *session) valid(q string) bool {
	return !evalRef(prom.DefaultEngineOptions(w.period, 100000), newRef(nil), q, false, dsim.Now(), w.window, w.period).Err || strings.Contains(q, "not a name")
}

// reply is what the prompt must answer; only its end is certain to be visible.
func (w *session) reply(in string) string {
	switch {
	case in == "":
		return ""
	case in[0] == ':':
		return fmt.Sprintf("no known command %q (hint: try %q)", in, ":quit")
	case !w.valid(in):
		return "Unable to set query"
	case in == "quit":
		return "(hint: use \":quit\" to quit)"
	}
	return fmt.Sprintf("Plotting %q...", in)
}

// reported checks that the answer to in shows up.
func (w *session) reported(in string, at int) {
	r := w.r
	want := w.reply(in)
	if want == "" {
		dsim.Sleep(time.Second)
	}
	limit := 12 * time.Second
	defer w.calm(false)
	for t := time.Duration(0); ; t += 50 * time.Millisecond {
		if w.gone() {
			return
		}
		if t == 2*time.Second {
			w.calm(true)
		}
		if w.small() {
			w.calm(true)
			dsim.Sleep(3 * time.Second)
			return
		}
		d := w.dock()
		text := w.scr.area(0, w.scr.vh-d, w.scr.vw, d)
		ok := false
		if want == "Unable to set query" {
			// the message may be longer than the area
			rows := 0
			for y := w.scr.vh - d; y < w.scr.vh; y++ {
				if strings.TrimSpace(w.scr.Line(y)) != "" {
					rows++
				}
			}
			ok = strings.Contains(text, noSpace(want)) || rows >= d-2 && t > 4*time.Second
		} else {
			q := []rune(noSpace(want))
			n := 20
			if len(q) < n {
				n = len(q)
			}
			ok = strings.Contains(text, string(q[len(q)-n:]))
		}
		if ok && w.prompting(d) {
			r.Probe("reply-seen")
			// go-prompt draws the prompt a little before it listens again
			w.calm(true)
			dsim.Sleep(ms(900))
			return
		}
		if t > limit {
			r.Fail("P14", "not-reported", "%v after entering %q the prompt does not show %q:\n%s", limit, in, want, w.scr.Dump())
			r.Fail("P08", "not-reported", "%v after entering %q the prompt does not show %q:\n%s", limit, in, want, w.scr.Dump())
			r.Fail("P04", "not-reported", "%v after entering %q the prompt does not show %q:\n%s", limit, in, want, w.scr.Dump())
			return
		}
		dsim.Sleep(50 * time.Millisecond)
	}
}

// prompting tells whether the last line is an empty prompt: what is typed
// before that go-prompt drops.
func (w *session) prompting(d int) bool {
	for y := w.scr.vh - 1; y >= w.scr.vh-d; y-- {
		if l := strings.TrimSpace(w.scr.Line(y)); l != "" {
			return l == ">>>"
		}
	}
	return false
}

// calm keeps threads from being stalled, for as long as it is on.
func (w *session) calm(on bool) {
	if !w.stalls {
		return
	}
	w.r.S.Cfg.StallPm = w.stallPm
	if on {
		w.r.S.Cfg.StallPm = 0
	}
}

// clear abandons the line being edited.  Ctrl-C is dropped, like any other
// key, while the previous line is being processed, so it takes patience.
func (w *session) clear() {
	w.calm(true)
	defer w.calm(false)
	for i := 0; i < 6 && !w.gone(); i++ {
		w.key(tcell.KeyCtrlC)
		for t := 0; t < 20 && !w.gone(); t++ {
			dsim.Sleep(ms(100))
			d := w.dock()
			if w.small() {
				if t > 10 && i > 2 {
					return
				}
				continue
			}
			if t > 9 && w.prompting(d) {
				return
			}
		}
	}
}

// enter types a line and waits for the reply.
func (w *session) enter(in string) {
	r := w.r
	if w.gone() {
		return
	}
	r.Say("enter %q", in)
	w.typ(in)
	dsim.Sleep(ms(r.W.Intn(200)))
	if !w.key(tcell.KeyEnter) {
		return
	}
	w.accepted(in)
	w.reported(in, 0)
}

func (w *session) accepted(in string) {
	if in != "" && in[0] != ':' && w.valid(in) {
		w.query, w.known = in, true
		w.plain = !strings.ContainsAny(in, "()+*/-[ =") || in == sentinel
	}
}

func (w *session) goodQuery() string {
	r := w.r
	for i := 0; i < 6; i++ {
		if q := queryPool(r, w.net, false); w.valid(q) && len(q) < 150 {
			return q
		}
	}
	return sentinel
}

func sessionMain(r *R) {
	kw := &keysWorld{doing: "start"}
	r.Ctx = kw
	sessionRun(r, kw)
	kw.finished = true
}

func sessionRun(r *R, kw *keysWorld) {
	wk, f := r.W, r.F
	net := NewNet(r)
	net.AddTargets(wk.Range(1, 3), wk.Range(1, 5), wk.Permille(500))
	w := &session{keysWorld: kw, r: r, net: net, known: true}
	net.OnReq = func(q *Req) {
		if q.Target < 0 {
			r.Fail("P14", "wrong-target", "%s was asked, the targets are %v", q.URL, net.URLs())
		}
		if w.returned && r.S.Elapsed()-w.ended > 2*time.Second {
			r.Fail("P11", "scrape-after-return", "a target was asked after the session had ended")
		}
		if n := len(w.rounds); n > 1 {
			again := false
			for _, o := range w.rounds[n-1] {
				if o.Target == q.Target {
					again = true
					if !o.Done {
						return
					}
				}
			}
			if !again {
				w.rounds[n-1] = append(w.rounds[n-1], q)
				return
			}
		} else if n == 1 && len(w.rounds[0]) < len(net.T) {
			// the command's first look at the targets
			w.rounds[0] = append(w.rounds[0], q)
			return
		}
		w.rounds = append(w.rounds, []*Req{q})
	}
	short := 3
	if r.Prop == "P16" {
		short = 12
	}
	pw := [][2]time.Duration{{500 * time.Millisecond, 20 * time.Second}, {time.Second, time.Minute}, {time.Second, 10 * time.Minute}, {2 * time.Second, time.Hour}, {3 * time.Second, 30 * time.Second}, {10 * time.Second, 24 * time.Hour}}[wk.Weighted(4, 5, 3, 2, short, 1)]
	w.period, w.window = pw[0], pw[1]
	faulty := f.Permille(700)
	if faulty {
		net.FaultPm = []int{100, 300, 700, 1000}[f.Intn(4)]
		for _, kd := range netKinds {
			if f.Permille(500) {
				net.Kinds = append(net.Kinds, kd)
			}
		}
		if len(net.Kinds) == 0 {
			net.Kinds = []string{"refused"}
		}
		net.StallMax = []int{2000, 8000, 30000}[f.Intn(3)]
	}
	net.Off = true // until the session runs
	net.Churn = []int{0, 0, 300}[wk.Intn(3)]
	net.Special = []int{0, 0, 200}[wk.Intn(3)]
	net.Clamp = true
	net.Explicit = []int{0, 0, 0, 200}[wk.Intn(4)]
	net.MinDelay = []int{0, 5, 60}[wk.Intn(3)]
	net.Delay, net.DelayMax = []int{0, 300}[f.Intn(2)], 1500
	size := func() (int, int) {
		p := [][2]int{{80, 24}, {120, 40}, {100, 30}, {60, 20}, {40, 12}, {10, 6}, {3, 3}, {1, 1}, {200, 50}}[wk.Weighted(8, 4, 4, 3, 2, 1, 1, 1, 1)]
		return p[0], p[1]
	}
	sw, sh := size()
	scr := NewScreen(r, sw, sh)
	w.scr = scr
	fail := ""
	startDelay := ms([]int{0, 0, 0, 50, 1500}[f.Intn(5)])
	if f.Permille(50) {
		switch f.Intn(3) {
		case 0:
			fail = "init"
			scr.InitErr = errors.New("sim: cannot open the terminal")
		case 1:
			fail = "make"
		case 2:
			fail = "scrape"
			net.Off = false
			net.FaultPm, net.Kinds = 1000, []string{"refused", "status-500", "malformed", "reset-mid-body"}
		}
		if fail != "scrape" {
			r.S.Fired("screen:" + fail + "-fails")
		}
	}
	tcell.DsimScreen = func() (tcell.Screen, error) {
		dsim.Y()
		if startDelay > 0 {
			r.S.Fired("slow-terminal-start")
			dsim.Sleep(startDelay)
		}
		if fail == "make" {
			return nil, errors.New("sim: no terminal")
		}
		return scr, nil
	}
	initial := ""
	switch wk.Weighted(3, 5, 2) {
	case 1:
		initial = w.goodQuery()
	case 2:
		initial = badQueries[wk.Intn(len(badQueries))]
	}
	out := &simOut{r: r, FailAt: -1}
	var l *launch
	flags := cli.PromQFlags{HostNames: net.URLs(), Output: "json", PromQuery: initial, Continuous: true}
	if fail == "" && w.period == time.Second && w.window == time.Minute && wk.Permille(500) {
		l = shell(r, flags, false)
	}
	r.Say("session: period %v, window %v, %d targets, terminal %dx%d, query %q, faults %v", w.period, w.window, len(net.T), sw, sh, initial, net.Kinds)
	dsim.Go("command", func() {
		w.err = l.run(r, net, out, w.period, w.window, flags)
		w.ended = r.S.Elapsed()
		w.returned = true
		r.Say("the command returned %v", w.err)
	})
	after := func() {
		kw.doing = "afterwards"
		shows, calls := scr.Shows, scr.AfterFini
		dsim.Sleep(10 * time.Second)
		if scr.Shows != shows || scr.AfterFini != calls {
			r.Fail("P11", "drawn-after-return", "the screen was drawn after the session had ended")
		}
		if scr.Finis > 1 || scr.Inits == 1 && scr.InitErr == nil && scr.Finis != 1 {
			r.Fail("P11", "finalised", "the terminal was restored %d times", scr.Finis)
		}
		if l := others(r, "main"); len(l) > 0 {
			rule := "P11"
			if fail != "" {
				rule = "P12"
			}
			r.Fail(rule, "left-running", "still there 10 s after the end: %v", l)
		}
		for _, q := range net.Reqs {
			if q.Opened && !q.Closed {
				r.Fail("P14", "response-leak", "the response of %s (%s) was not closed", q.URL, q.Outcome)
				r.Fail("P11", "response-leak", "the response of %s (%s) was not closed", q.URL, q.Outcome)
			}
		}
		w.finished = true
	}
	if fail != "" {
		r.Nontriv = true
		for i := 0; !w.returned; i++ {
			if i > 1000 {
				r.Fail("P12", "failed-start-stuck", "10 s after a failed start (%s) the command has not returned", fail)
				return
			}
			dsim.Sleep(ms(10))
		}
		if w.err == nil {
			r.Fail("P12", "failed-start-ignored", "the start failed (%s) but the command returned no error", fail)
		}
		if scr.Shows > 0 {
			r.Fail("P12", "drawn-without-terminal", "something was drawn although the start failed (%s)", fail)
		}
		after()
		return
	}
	if f.Permille(250) {
		w.stalls = true
		w.stallPm = []int{1, 2, 5, 16}[f.Intn(4)]
		r.S.Cfg.StallMax = 400 * time.Millisecond
		w.calm(false)
	}
	for i := 0; !scr.inited; i++ {
		if i > 3000 || w.returned {
			r.Fail("P12", "not-started", "the session has not opened the terminal after %v (%v)", r.S.Elapsed(), w.err)
			return
		}
		dsim.Sleep(ms(10))
	}
	net.Off = !faulty
	quitAt := f.Permille(200) // quit somewhere in the middle
	early := wk.Permille(200)
	if early {
		// keys while the session is starting; whatever they do to the initial query
		w.typ("zz")
		w.known = false
		dsim.Sleep(4 * time.Second)
		w.clear()
	} else {
		w.accepted(initial)
		kw.doing = "wait for the initial query"
		w.reported(initial, 0)
	}
	base := -1
	n := wk.Range(0, 5)
	r.Nontriv = true
	kw.doing = "use"
	for i := 0; i < n && !w.gone() && len(r.Fails) == 0 && r.S.Steps < 12e6; i++ {
		if quitAt && f.Permille(300) {
			break
		}
		switch wk.Weighted(5, 4, 2, 3, 3, 2, 2, 1) {
		case 0:
			if wk.Permille(80) {
				// queries, not commands
				w.enter([]string{"quit", "exit", "q"}[wk.Intn(3)])
				break
			}
			w.enter(w.goodQuery())
		case 1:
			w.enter(badQueries[wk.Intn(len(badQueries))])
		case 2:
			if wk.Permille(300) {
				// close to the real one; the same answer may already be there
				w.enter([]string{":x", ":", ":quits", ":qui", ":exit", ":quit!"}[wk.Intn(6)])
				w.calm(true)
				dsim.Sleep(2 * time.Second)
				w.calm(false)
				break
			}
			w.unk++
			w.enter(fmt.Sprintf(":%s%d", []string{"quit", "q", "x", "", "help"}[wk.Intn(5)], w.unk))
		case 3:
			d := time.Duration(wk.Range(1, 6)) * w.period
			r.Say("wait %v", d)
			dsim.Sleep(d)
		case 4:
			a, b := size()
			r.Say("terminal is now %dx%d", a, b)
			scr.SetTerm(a, b)
			r.S.Fired("resize")
			scr.Winch()
			if scr.LostResize {
				r.Probe("resize-notice-lost")
			}
			dsim.Sleep(ms(wk.Intn(300)))
			if f.Permille(100) {
				r.Say("mouse report")
				scr.Odd(f)
			}
		case 5:
			w.mash()
		case 6:
			d := []time.Duration{-time.Hour, -30 * time.Second, 40 * time.Second, time.Hour, 100 * time.Hour}[f.Intn(5)]
			r.Say("clock jumps by %v", d)
			r.S.Fired("clock-jump")
			r.S.JumpWall(d)
			w.jumped = true
			if d < 0 && !w.plain {
				w.known = false
			}
		case 7:
			if !w.gone() {
				// history
				w.key(tcell.KeyUp)
				dsim.Sleep(ms(300))
				w.clear()
			}
		}
		if base < 0 && wk.Permille(500) {
			base = len(others(r, "main"))
		}
	}
	if !quitAt && !w.gone() && len(r.Fails) == 0 {
		kw.doing = "recover"
		net.Off = true
		net.Churn, net.Special, net.Explicit = 0, 0, 0
		if w.stalls {
			w.calm(true)
			w.stalls = false
			dsim.Sleep(time.Second)
		}
		if !w.known || w.query == "" {
			w.clear()
			w.enter(w.goodQuery())
		}
		healed := r.S.Elapsed()
		r.Say("faults over; the query is %q", w.query)
		// requests that hang now may do so for a while
		for i := 0; w.pending() && i < 400; i++ {
			dsim.Sleep(ms(100))
		}
		healed = r.S.Elapsed()
		dsim.Sleep(4*w.period + w.period/2)
		w.judge(healed)
		if r.Prop == "P16" || wk.Permille(150) {
			n := 1 + wk.Intn(6)
			if rounds := int(w.window / w.period); rounds <= 12 && wk.Permille(700) {
				// for one round the values are far from the others
				net.Boost = []float64{1e6, -1e6, 3e4}[wk.Intn(3)]
				dsim.Sleep(w.period + w.period/4)
				net.Boost = 0
				n += rounds + 2
				r.Probe("spike")
			}
			w.watch(n)
		}
		if base < 0 {
			base = len(others(r, "main"))
		}
		if (r.Prop == "P16" || wk.Permille(150)) && len(r.Fails) == 0 && wk.Permille(600) {
			w.anew(healed)
		}
		if wk.Permille(500) && !w.gone() {
			if wk.Permille(500) {
				bad := badQueries[wk.Intn(len(badQueries))]
				w.enter(bad)
			} else {
				w.enter(w.goodQuery())
			}
			dsim.Sleep(3 * w.period)
			w.judge(healed)
		}
		if l := others(r, "main"); len(l) > base+1 && base > 0 {
			r.Fail("P14", "goroutines-grow", "there were %d goroutines, now there are %d: %v", base, len(l), l)
		}
	}
	if len(r.Fails) > 0 {
		return
	}
	kw.doing = "quit"
	if w.gone() {
		r.Fail("P14", "ended-alone", "the session ended (%v) without being asked to", w.err)
		r.Fail("P11", "ended-alone", "the session ended (%v) without being asked to", w.err)
		return
	}
	if d := w.dock(); w.stalls || w.small() || !w.prompting(d) {
		w.clear()
		w.calm(w.r.W.Permille(500))
	}
	if f.Permille(400) {
		// end it while a target does not answer
		net.Off, net.FaultPm, net.Kinds, net.StallMax = false, 800, []string{"hang"}, 60_000
		for i := 0; net.Inflight == 0 && i < 200; i++ {
			dsim.Sleep(w.period / 50)
		}
		dsim.Sleep(w.period / 2)
	}
	at := r.S.Elapsed()
	q := []string{":q", ":quit"}[wk.Intn(2)]
	r.Say("enter %q", q)
	w.typ(q)
	w.key(tcell.KeyEnter)
	if f.Permille(400) {
		r.S.Fired("keys-during-quit")
		dsim.Go("keyboard", func() {
			for k := 0; k < 100; k++ {
				if !scr.key(tcell.NewEventKey(tcell.KeyRune, 'z', 0)) {
					return
				}
			}
		})
	}
	for !w.returned {
		if r.S.Elapsed()-at > 2*time.Second {
			w.calm(true)
		}
		if r.S.Elapsed()-at > 17*time.Second {
			r.Fail("P11", "quit-ignored", "the session is still there 17 s after %q was entered", q)
			return
		}
		dsim.Sleep(ms(20))
	}
	if d := w.ended - at; d > 6*time.Second && !w.stalls {
		r.Fail("P11", "slow-end", "the session ended %v after %q was entered", d, q)
	}
	if w.err != nil {
		r.Fail("P11", "error-at-end", "the command returned %v", w.err)
	}
	r.Probe("session-ended")
	after()
}

// pending tells whether a target is still being asked.
func (w *session) pending() bool {
	for _, q := range w.net.Reqs {
		if !q.Done || q.Opened && !q.Closed {
			return true
		}
	}
	return w.net.Inflight > 0
}

// mash hits random keys, then clears the line.
func (w *session) mash() {
	r, wk := w.r, w.r.W
	n := wk.Range(1, 40)
	r.Say("%d random keys", n)
	r.S.Fired("random-keys")
	for i := 0; i < n && !w.gone(); i++ {
		if wk.Permille(600) {
			w.scr.key(tcell.NewEventKey(tcell.KeyRune, []rune("abusr({[=\"',})~!] :019")[wk.Intn(22)], 0))
		} else {
			d := specialKeys[wk.Intn(len(specialKeys))]
			if d.k == tcell.KeyEnter {
				w.known = false
			}
			w.scr.key(tcell.NewEventKey(d.k, 0, d.mod))
		}
		if wk.Permille(400) {
			dsim.Sleep(ms(wk.Intn(150)))
		}
	}
	dsim.Sleep(3 * time.Second)
	w.clear()
}

func (w *session) lastDone() []*Req {
	n := len(w.rounds) - 1
	if n < 1 {
		return nil
	}
	l := w.rounds[n]
	if len(l) != len(w.net.T) {
		return nil
	}
	for _, q := range l {
		if !q.Done || !q.Good || !q.EOF {
			return nil
		}
	}
	return l
}

// judge compares what is visible with the current data.
func (w *session) judge(since time.Duration) {
	r := w.r
	w.doing = "compare"
	// just after a round
	start := r.S.Elapsed()
	last := len(w.rounds)
	var rd []*Req
	for {
		if w.gone() || len(r.Fails) > 0 {
			return
		}
		if d := r.S.Elapsed() - start; d > 3*w.period+5*time.Second {
			r.Fail("P14", "no-rounds", "no complete round in %v although all targets answer (period %v)", d, w.period)
			return
		}
		if rd = w.lastDone(); rd != nil && len(w.rounds) > last {
			break
		}
		dsim.Sleep(ms(5))
	}
	dsim.Sleep(ms(200))
	if cur := w.rounds[len(w.rounds)-1]; &cur[0] != &rd[0] {
		return // already in the next one
	}
	for _, q := range w.net.Reqs {
		if q.Opened && !q.Closed {
			r.Fail("P14", "response-leak", "between two rounds the response of %s (%s) is not closed", q.URL, q.Outcome)
		}
	}
	w.judgePeriod(since, rd)
	scr := w.scr
	if scr.LostResize {
		// takes effect with the paint that the round caused
		r.Probe("resize-notice-lost")
	}
	if scr.vw != scr.tw || scr.vh != scr.th {
		r.Fail("P09", "wrong-size", "the display is %dx%d, the terminal %dx%d", scr.vw, scr.vh, scr.tw, scr.th)
		r.Fail("P14", "wrong-size", "the display is %dx%d, the terminal %dx%d", scr.vw, scr.vh, scr.tw, scr.th)
	}
	dock := w.dock()
	if scr.vcx >= 0 && (scr.vcy < scr.vh-dock || scr.vcy >= scr.vh) && dock > 0 {
		r.Fail("P10", "cursor-outside", "the cursor is at column %d, row %d of %dx%d, not in the prompt's %d rows", scr.vcx, scr.vcy, scr.vw, scr.vh, dock)
	}
	if !w.known || w.query == "" {
		return
	}
	// the data there is
	lo, hi := rd[0].Wall, rd[0].Wall
	for _, q := range rd {
		if q.Wall.Before(lo) {
			lo = q.Wall
		}
		if e := q.Wall.Add(q.End - q.At); e.After(hi) {
			hi = e
		}
	}
	var all, kept []Smp
	for i, rr := range w.rounds {
		if i == 0 || len(rr) != len(w.net.T) {
			continue
		}
		good := true
		for _, q := range rr {
			good = good && q.Good && q.EOF
		}
		if !good {
			continue
		}
		for _, q := range rr {
			for _, s := range q.Samples {
				if !s.Explicit {
					s.TS = rr[0].Wall.UnixMilli()
				}
				all = append(all, s)
				if s.TS >= lo.Add(-w.window).UnixMilli() {
					kept = append(kept, s)
				}
			}
		}
	}
	opts := prom.DefaultEngineOptions(w.period, 100000)
	var exp *Res
	var exps []*Res
	var latest int64
	early := int64(math.MaxInt64) // the data certainly reaches this
	for _, st := range [][]Smp{all, kept} {
		for _, now := range []time.Time{lo, hi.Add(time.Millisecond)} {
			e := evalRef(opts, newRef(st), w.query, false, now, w.window, w.period)
			if e.Err || e.Kind != "matrix" {
				r.Probe("expected-error")
				return
			}
			if exp != nil && strings.Join(sortedKeys(exp.S), "\x00") != strings.Join(sortedKeys(e.S), "\x00") {
				r.Probe("expected-unclear")
				return
			}
			exp = e
			exps = append(exps, e)
			ends := int64(0)
			for _, p := range e.S {
				if t := p[len(p)-1].t; t > ends {
					ends = t
				}
			}
			if ends > latest {
				latest = ends
			}
			if ends < now.UnixMilli() {
				// it ends somewhere else, and the step before that may be the last
				ends -= w.period.Milliseconds()
			}
			if ends < early {
				early = ends
			}
		}
	}
	// titles: the values of the labels
	want := map[string]int{}
	maxSize := 1
	entries := []string{}
	for k := range exp.S {
		t := w.title(k)
		want[noSpace(cut(t))]++
		for name := range w.labelSet(k) {
			w.digits = w.digits || name == "instance" || w.net.hasDigits(name)
		}
		entries = append(entries, "• ", t, "\n\n")
		if len(t)+3 > maxSize {
			maxSize = len(t) + 3
		}
	}
	rows := scr.vh - dock
	cols := maxSize
	if len(exp.S) > 0 {
		if m := int(float64(scr.vw) * 20 / 100); cols > m {
			cols = m
		}
	}
	if cols > scr.vw-1 {
		cols = scr.vw - 1
	}
	if cols >= 4 && rows >= 1 && scr.vw >= 20 {
		text := ""
		for y := 0; y < rows; y++ {
			text += scr.span(0, y, cols)
		}
		text = noSpace(text)
		parts := strings.Split(text, "•")
		got := map[string]int{}
		for _, p := range parts[1:] {
			got[p]++
		}
		need := len(layout(entries, cols, 1<<20))
		_ = need
		fits := w.lines(entries, cols) <= rows
		for p, k := range got {
			if k > want[p] {
				r.Fail("P14", "stale-key", "the key lists %q %d times, the current data of %q has it %d times:\n%s", p, k, w.query, want[p], scr.Dump())
			}
		}
		if fits {
			for p, k := range want {
				if got[p] != k {
					r.Fail("P14", "key-incomplete", "the key lists %q %d times, the current data of %q has it %d times:\n%s", p, got[p], w.query, k, scr.Dump())
				}
			}
			if len(parts[0]) > 0 {
				r.Fail("P14", "stale-key", "the key shows %q before its first entry:\n%s", parts[0], scr.Dump())
			}
			r.Probe("key-compared")
			w.colours(cols, rows, want)
		}
	}
	if len(exp.S) == 0 || latest == 0 || len(r.Fails) > 0 {
		return
	}
	// the time at the end of the axis
	x0, gc := cols, scr.vw-cols
	margin := 9
	if w.window < time.Minute {
		margin = 16
	}
	if gc < 24 || rows < margin+4 {
		return
	}
	a, b := early-20, latest+220
	ok := false
	dots := false
	maxLbl := math.Inf(-1)
	var have []string
	for x := x0; x < scr.vw; x++ {
		col := ""
		for y := 0; y < rows; y++ {
			ch := scr.At(x, y)
			if ch >= 0x2801 && ch < 0x2900 {
				dots = true
			}
			if ch > 0 && ch < 128 {
				col += string(ch)
			} else {
				col += " "
			}
		}
		col = strings.TrimSpace(col)
		if i := strings.LastIndex(col, " "); i >= 0 && w.window < 24*time.Hour {
			col = col[i+1:]
		}
		if col != "" {
			have = append(have, col)
		}
		switch {
		case w.window < time.Minute:
			if m := msLbl.FindStringSubmatch(col); m != nil {
				t, _ := strconv.ParseInt(m[1], 10, 64)
				ok = ok || t >= a && t <= b
			}
		default:
			for t := a; t <= b; t += 20 {
				if l := w.axisLabel(t); l != "" && strings.Contains(col, strings.TrimSpace(l)) {
					ok = true
				}
			}
		}
	}
	for y := 0; y < rows; y++ {
		for _, n := range yLbl.FindAllStringSubmatch(scr.span(x0, y, gc), -1) {
			if v, err := strconv.ParseFloat(strings.TrimSpace(n[1]), 64); err == nil && v > maxLbl {
				maxLbl = v
			}
		}
	}
	if !ok {
		r.Fail("P14", "stale-graph", "the graph of %q does not reach the last round at %s (%d); its axis shows %q:\n%s", w.query, time.UnixMilli(latest).UTC().Format("15:04:05"), latest, have, scr.Dump())
		r.Fail("P09", "stale-graph", "the graph of %q does not reach the last round at %s (%d); its axis shows %q:\n%s", w.query, time.UnixMilli(latest).UTC().Format("15:04:05"), latest, have, scr.Dump())
		return
	}
	// where exactly the steps are is not known, so look for what lasts
	finite := true
	top := math.Inf(1)
	for _, e := range exps {
		most := math.Inf(-1)
		for _, p := range e.S {
			for i := 2; i < len(p); i++ {
				low := math.Inf(1)
				for _, q := range p[i-2 : i+1] {
					if math.IsNaN(q.v) || math.IsInf(q.v, 0) {
						low = math.NaN()
					}
					low = math.Min(low, q.v)
				}
				if !math.IsNaN(low) && p[i].t-p[i-2].t <= 2*w.period.Milliseconds() {
					most = math.Max(most, low)
				}
			}
		}
		finite = finite && !math.IsInf(most, -1)
		top = math.Min(top, most)
	}
	if finite && !dots {
		r.Fail("P14", "empty-graph", "nothing is plotted for %q:\n%s", w.query, scr.Dump())
	}
	if finite && w.plain && maxLbl < top*0.6 && top > 0 && top < 1e6 {
		r.Fail("P14", "stale-range", "the largest value on the axis is %v, the data of %q reaches %v:\n%s", maxLbl, w.query, top, scr.Dump())
	}
	r.Probe("graph-compared")
}

// colours compares the colours of the key with those of the graph; the key is
// known to be complete.
func (w *session) colours(cols, rows int, want map[string]int) {
	r, scr := w.r, w.scr
	have := map[tcell.Color]bool{}
	var list []string
	for y := 0; y < rows; y++ {
		for x := 0; x < cols; x++ {
			if c := scr.vis[y*scr.vw+x]; c.ch == '•' {
				fg, _, _ := c.style.Decompose()
				have[fg] = true
				list = append(list, fmt.Sprint(int(fg)))
			}
		}
	}
	for y := 0; y < rows; y++ {
		for x := cols; x < scr.vw; x++ {
			c := scr.vis[y*scr.vw+x]
			if c.ch <= 0x2800 || c.ch > 0x28ff {
				continue
			}
			if fg, _, _ := c.style.Decompose(); !have[fg] {
				r.Fail("P16", "wrong-colour", "the graph of %q has the colour %d at column %d, row %d, the key only %v:\n%s", w.query, fg, x, y, list, scr.Dump())
				return
			}
		}
	}
	// a series keeps its colour
	sort.Strings(list)
	k := ""
	for _, t := range sortedKeys(want) {
		k += fmt.Sprintf("%d %q ", want[t], t)
	}
	if w.hues == nil {
		w.hues = map[string]string{}
	}
	now := strings.Join(list, " ")
	if old, ok := w.hues[k]; ok && old != now {
		r.Fail("P16", "colour-changed", "the series %s had the colours %s, now they have %s", k, old, now)
	}
	w.hues[k] = now
	r.Probe("colours-compared")
}

// keyEnd is the column in which the key ends, if that can be told from the
// query: all titles have an instance, which is longer than the key may be.
func (w *session) keyEnd(q string) int {
	e, err := parser.ParseExpr(q)
	if _, ok := e.(*parser.VectorSelector); !ok || err != nil {
		return 0
	}
	cols := int(float64(w.scr.vw) * 20 / 100)
	for _, t := range w.net.T {
		if len(t.URL)+3 <= cols {
			return 0
		}
	}
	return cols
}

// axis reads the value axis: the rows of its labels, and how many it has.
func (w *session) axis(from int) (map[int]float64, int) {
	scr := w.scr
	at := -1
	for y := 0; y < scr.vh; y++ {
		for x := 0; x < scr.vw; x++ {
			if scr.At(x, y) == '┗' {
				at = y
			}
		}
	}
	out := map[int]float64{}
	top, low := at, 0
	for y := 0; y < at; y++ {
		line := scr.span(from, y, scr.vw)
		if !strings.ContainsRune(line, '┨') {
			// what is left of the axis belongs to the key: with digits in it
			// the labels cannot be told from it
			key, _, _ := strings.Cut(line, "┃")
			if strings.ContainsAny(key, "0123456789") {
				return nil, at
			}
			continue
		}
		m := tickLbl.FindStringSubmatch(line)
		if m == nil {
			return nil, at
		}
		v, err := strconv.ParseFloat(m[1], 64)
		if err != nil {
			return nil, at
		}
		out[y] = v
		top, low = min(top, y), max(low, y)
	}
	// labels written one over the other (a known finding) read as anything:
	// take only axes that are plausible as a whole
	for y, v := range out {
		per := (out[top] - out[low]) / float64(max(1, low-top))
		if len(out) < 3 || math.Abs(out[low]+per*float64(low-y)-v) > 1.6*per+1e-3*math.Abs(v) {
			return nil, at
		}
	}
	if len(out) >= 3 {
		// labels may be missing at the ends (a known finding)
		per := (out[top] - out[low]) / float64(low-top)
		out[0] = out[top] + per*float64(top)
		out[at-1] = out[low] - per*float64(at-1-low)
	}
	return out, at
}

// watch follows the graph over some rounds: its range never shrinks while the
// query stays the same.
func (w *session) watch(n int) {
	r, scr := w.r, w.scr
	w.doing = "watch"
	from := w.keyEnd(w.query)
	if !w.known || w.query == "" || w.stalls || w.digits && from == 0 {
		return
	}
	ends := func(m map[int]float64) (lo, hi float64) {
		lo, hi = math.Inf(1), math.Inf(-1)
		for _, v := range m {
			lo, hi = math.Min(lo, v), math.Max(hi, v)
		}
		return
	}
	last, lastRows := w.axis(from)
	sw, sh := scr.vw, scr.vh
	for ; n > 0 && !w.gone(); n-- {
		dsim.Sleep(w.period)
		if r.W.Permille(100) {
			w.clear()
			w.enter(badQueries[r.W.Intn(len(badQueries))])
			dsim.Sleep(w.period)
		}
		if scr.vw != sw || scr.vh != sh || scr.tw != sw || scr.th != sh {
			return
		}
		now, rows := w.axis(from)
		if len(now) < 2 || len(last) < 2 || rows != lastRows {
			last, lastRows = now, rows
			continue
		}
		lo0, hi0 := ends(last)
		lo, hi := ends(now)
		slack := (hi0 - lo0) * 1.6 / float64(max(1, rows-1))
		if lo > lo0+1e-3*math.Abs(lo0)+slack || hi < hi0-1e-3*math.Abs(hi0)-slack {
			r.Fail("P16", "range-shrinks", "the values of %q were shown from %v to %v, now they are from %v to %v:\n%s", w.query, lo0, hi0, lo, hi, scr.Dump())
			return
		}
		last, lastRows = now, rows
		r.Probe("range-watched")
	}
}

var msLbl = regexp.MustCompile(`(\d{9,})ms`)

// anew enters a query, possibly the same, and expects the range of values to
// start from what that query shows.
func (w *session) anew(healed time.Duration) {
	r, scr := w.r, w.scr
	if w.gone() || w.small() {
		return
	}
	w.clear()
	q := w.query
	if q == "" || r.W.Permille(400) {
		q = sentinel
	}
	if r.W.Permille(300) {
		q = w.goodQuery()
	}
	asked := r.S.Elapsed()
	late := r.F.Permille(300)
	if late {
		w.stalls, w.stallPm = true, []int{1, 5, 16}[r.F.Intn(3)]
		r.S.Cfg.StallMax = 400 * time.Millisecond
		w.calm(false)
	}
	w.enter(q)
	if late {
		w.calm(true)
		w.stalls = false
	}
	w.doing = "new query"
	seen := r.S.Elapsed()
	dsim.Sleep(3*w.period + w.period/4)
	if w.gone() || len(r.Fails) > 0 || w.stalls || w.jumped || !w.known || w.query != q {
		return
	}
	if scr.vw != scr.tw || scr.vh != scr.th {
		return
	}
	e, err := parser.ParseExpr(q)
	sel, ok := e.(*parser.VectorSelector)
	if err != nil || !ok || sel.OriginalOffset != 0 || sel.Timestamp != nil || sel.StartOrEnd != 0 {
		return
	}
	from := w.keyEnd(q)
	if from == 0 {
		return
	}
	// every value it may show, and perhaps some more
	lo0, hi0 := math.Inf(1), math.Inf(-1)
	busy, old := late, map[string]float64{}
	see := func(v float64) {
		if !math.IsNaN(v) && !math.IsInf(v, 0) {
			lo0, hi0 = math.Min(lo0, v), math.Max(hi0, v)
		}
	}
	for _, o := range w.net.Reqs {
		if o.At <= seen && (!o.Done || o.End >= asked) {
			busy = true
		}
		for _, s := range o.Samples {
			if s.Explicit {
				return
			}
			match := true
			for _, m := range sel.LabelMatchers {
				match = match && m.Matches(s.Labels.Get(m.Name))
			}
			if !match {
				continue
			}
			if k := s.Labels.String(); o.At < asked-w.window-3*w.period {
				old[k] = s.Value
				continue
			} else if o.At < asked-w.window && o.At > healed+2*w.period && o.EOF {
				delete(old, k)
			}
			see(s.Value)
		}
	}
	// older values show as long as nothing newer comes
	for _, v := range old {
		see(v)
	}
	now, rows := w.axis(from)
	if len(now) < 2 || lo0 > hi0 {
		return
	}
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, v := range now {
		lo, hi = math.Min(lo, v), math.Max(hi, v)
	}
	slack := (hi - lo) * 1.6 / float64(max(1, rows-1))
	slack += 1e-3 * (math.Abs(lo0) + math.Abs(hi0))
	r.Probe("range-anew")
	if lo < lo0-slack || hi > hi0+slack {
		rule := "range-not-new"
		if busy {
			rule = "range-not-new-in-flight"
		}
		r.Fail("P16", rule, "the query %q was entered %v ago and had values from %v to %v since, but the graph shows %v to %v:\n%s", q, r.S.Elapsed()-seen, lo0, hi0, lo, hi, scr.Dump())
	}
}

var tickLbl = regexp.MustCompile(`^[^-+0-9.┨]*([-+]?[0-9][-+0-9.e]*)\s*┨`)
var yLbl = regexp.MustCompile(`([-+0-9.e]+)\s*[┨┗┃]`)

func (w *session) axisLabel(t int64) string {
	tm := time.UnixMilli(t).UTC()
	switch {
	case w.window >= 10*24*time.Hour:
		return tm.Format("Jan _2")
	case w.window >= 24*time.Hour:
		return tm.Format("_2 15h")
	case w.window >= time.Hour:
		return tm.Format("15:04")
	}
	return tm.Format("04:05")
}

// title is the key's text for a series, from its label string.
func (w *session) title(k string) string {
	ls := w.labelSet(k)
	names := sortedKeys(ls)
	var vs []string
	for _, n := range names {
		vs = append(vs, ls[n])
	}
	return strings.Join(vs, ", ")
}

// lines the entries take, whatever their order.
func (w *session) lines(chunks []string, cols int) int {
	n := 1
	line := 0
	for _, c := range chunks {
		for _, ch := range c {
			if ch == '\n' {
				n++
				line = 0
				continue
			}
			line += runewidth.RuneWidth(ch)
			if line > cols {
				n++
				line = runewidth.RuneWidth(ch)
			}
		}
	}
	return n
}

// cut drops what a text box does not show.
func cut(s string) string {
	return strings.Map(func(c rune) rune {
		if c < 0x20 && c != '\n' || c == 0x7f {
			return -1
		}
		return c
	}, s)
}

// labelSet parses a rendered label set.
func (w *session) labelSet(s string) map[string]string {
	out := map[string]string{}
	s = strings.TrimSuffix(strings.TrimPrefix(s, "{"), "}")
	for s != "" {
		i := strings.Index(s, "=")
		if i < 0 {
			break
		}
		name := strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(s[:i]), ","))
		q, err := strconv.QuotedPrefix(s[i+1:])
		if err != nil {
			break
		}
		v, _ := strconv.Unquote(q)
		out[name] = v
		s = s[i+1+len(q):]
		s = strings.TrimSpace(strings.TrimPrefix(s, ","))
	}
	return out
}

// judgePeriod: with every target answering, each is asked once per period.
func (w *session) judgePeriod(since time.Duration, rd []*Req) {
	r := w.r
	if w.stalls {
		return
	}
	end := rd[0].At
	per := map[int][]time.Duration{}
	for _, q := range w.net.Reqs {
		if q.At <= end && q.At >= end-3*w.period-w.period/2 && q.At >= since+2*w.period {
			per[q.Target] = append(per[q.Target], q.At)
		}
	}
	var keys []int
	for k := range per {
		keys = append(keys, k)
	}
	sort.Ints(keys)
	slow := time.Duration(len(w.net.T)*w.net.MinDelay) * time.Millisecond
	for _, k := range keys {
		a := per[k]
		for i := 1; i < len(a); i++ {
			d := a[i] - a[i-1]
			if d > w.period+w.period/2+slow || d < w.period/2-slow {
				r.Fail("P14", "not-once-per-period", "target %d was asked %v after the time before, the period is %v", k, d, w.period)
				r.Fail("P01", "not-once-per-period", "target %d was asked %v after the time before, the period is %v", k, d, w.period)
			}
		}
		r.Probe("period-compared")
	}
}
