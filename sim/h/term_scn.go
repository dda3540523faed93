package h

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/gdamore/tcell"
	"sigs.k8s.io/instrumentation-tools/promq/term"
	"verif.local/sim/dsim"
)

// Scenario "term": the runner and its event loop with test views, a keyboard,
// updaters, repainters and a terminal that changes its size.

func init() {
	register(&Scenario{Name: "term", Conf: func(r *R) { r.S.Cfg.Horizon = 30 * time.Minute }, Main: termMain, Post: termPost})
}

type termWorld struct {
	r        *R
	scr      *Screen
	doing    string
	finished bool

	inView    string
	drawing   bool
	lastDrawn *tview
	running   bool // Run was called and has not returned
	returned  bool
	started   int // OnStart calls
	keysGot   []int
	slowView  time.Duration
	slowKey   time.Duration
	ctxDone   bool
	drawn     []int
}

// tview is a view that fills its box with a mark of its identity and version.
type tview struct {
	w                       *termWorld
	id                      int
	by                      int // updater
	seq                     int
	box                     term.PositionBox
	hasBox                  bool
	version                 int // changed by the repainter
	shown                   int
	initial                 bool
	asked, answered         time.Duration // RequestUpdate invocation and return
	askedStep, answeredStep int
	nested                  bool
	lookup                  func() int
}

func (v *tview) mark() rune { return rune(0x4E00 + v.id) } // width 2; see cell()

const markBase = 0xE000

func (v *tview) enter(what string) {
	w := v.w
	if w.inView != "" {
		w.r.Fail("P09", "views-concurrent", "%s of view %d while %s was not finished", what, v.id, w.inView)
	}
	w.inView = fmt.Sprintf("%s of view %d", what, v.id)
	if w.returned {
		w.r.Fail("P11", "view-after-return", "%s of view %d after the runner had returned", what, v.id)
	}
	dsim.Y()
}

func (v *tview) leave() { v.w.inView = "" }

func (v *tview) SetBox(b term.PositionBox) {
	v.enter("SetBox")
	defer v.leave()
	if b.Cols < 0 || b.Rows < 0 || b.StartCol < 0 || b.StartRow < 0 {
		v.w.r.Fail("P10", "negative-box", "view %d was given the area %+v", v.id, b)
	}
	v.box = b
	v.hasBox = true
}

func (v *tview) FlushTo(s tcell.Screen) {
	v.enter("FlushTo")
	defer v.leave()
	w := v.w
	if !v.hasBox && !v.initial {
		w.r.Fail("P09", "drawn-without-box", "view %d was drawn before it was given an area", v.id)
	}
	if w.slowView > 0 {
		dsim.Sleep(w.slowView)
	}
	ver := v.version
	if v.lookup != nil {
		ver = v.lookup()
	}
	if p := w.lastDrawn; p != nil && p != v && p.by == v.by && p.seq > v.seq {
		w.r.Fail("P09", "went-back", "view %d of updater %d (its request %d) was drawn after its request %d", v.id, v.by, v.seq, p.seq)
	}
	w.lastDrawn = v
	if v.hasBox {
		for y := 0; y < v.box.Rows; y++ {
			for x := 0; x < v.box.Cols; x++ {
				if x > 3 && x < v.box.Cols-1 && y > 0 && y < v.box.Rows-1 {
					continue
				}
				var c rune
				switch (x + y) % 2 {
				case 0:
					c = rune(markBase + v.id)
				case 1:
					c = rune(markBase + 0x1000 + ver%0x800)
				}
				s.SetContent(v.box.StartCol+x, v.box.StartRow+y, c, nil, tcell.StyleDefault)
			}
		}
	}
	v.shown = ver
}

// look reads the identity, version and size out of what is visible.
func (w *termWorld) look() (id, ver int, ok bool, why string) {
	s := w.scr
	if s.vw < 1 || s.vh < 1 {
		return 0, 0, false, "nothing is visible"
	}
	id, ver = -1, -1
	for _, p := range [][2]int{{0, 0}, {s.vw - 1, 0}, {0, s.vh - 1}, {s.vw - 1, s.vh - 1}, {1, 0}, {0, 1}} {
		if p[0] >= s.vw || p[1] >= s.vh {
			continue
		}
		c := int(s.At(p[0], p[1]))
		switch {
		case (p[0]+p[1])%2 == 0 && c >= markBase && c < markBase+0x1000:
			if id >= 0 && id != c-markBase {
				return 0, 0, false, fmt.Sprintf("views %d and %d are both visible", id, c-markBase)
			}
			id = c - markBase
		case (p[0]+p[1])%2 == 1 && c >= markBase+0x1000:
			v := c - markBase - 0x1000
			if ver >= 0 && ver != v {
				return 0, 0, false, fmt.Sprintf("versions %d and %d are both visible", ver, v)
			}
			ver = v
		default:
			return 0, 0, false, fmt.Sprintf("cell %d,%d of %dx%d shows %q, not the view's content", p[0], p[1], s.vw, s.vh, rune(c))
		}
	}
	return id, ver, true, ""
}

func termMain(r *R) {
	w := &termWorld{r: r, doing: "run"}
	r.Ctx = w
	wk, f := r.W, r.F
	sizes := [][2]int{{80, 24}, {1, 1}, {2, 1}, {5, 3}, {200, 50}, {10, 10}, {33, 7}}
	size := func() (int, int) { p := sizes[wk.Intn(len(sizes))]; return p[0], p[1] }
	sw, sh := size()
	scr := NewScreen(r, sw, sh)
	w.scr = scr
	var makeErr error
	fail := ""
	if f.Permille(60) {
		switch f.Intn(2) {
		case 0:
			fail = "init"
			scr.InitErr = errors.New("sim: cannot open the terminal")
		case 1:
			fail = "make"
			makeErr = errors.New("sim: no terminal")
			r.S.Fired("screen:make-fails")
		}
	}
	stalls := f.Permille(150)
	if stalls {
		r.Stalls(10, 500*time.Millisecond)
	}
	w.slowView = ms([]int{0, 0, 5, 60, 400}[f.Intn(5)])
	if w.slowView > 0 {
		r.S.Fired("slow-view")
	}
	w.slowKey = ms([]int{0, 0, 0, 20, 200}[f.Intn(5)])
	if w.slowKey > 0 {
		r.S.Fired("slow-key-handler")
	}
	startDelay := ms([]int{0, 0, 30}[wk.Intn(3)])
	startRuns := f.Permille(300)

	var views []*tview
	nextID := 0
	content := 0 // version shown by views that look it up
	newView := func(by, seq int) *tview {
		v := &tview{w: w, id: nextID, by: by, seq: seq}
		v.lookup = func() int { return content }
		nextID++
		views = append(views, v)
		return v
	}
	var keysSent []int
	startShows, shown := wk.Permille(300), false
	var run *term.Runner
	run = &term.Runner{
		KeyHandler: func(k *tcell.EventKey) {
			if w.returned {
				r.Fail("P11", "key-after-return", "a key was handled after the runner had returned")
			}
			if w.started == 0 {
				r.Fail("P12", "key-before-start", "a key was handled before the start-up notification")
			}
			if w.inView != "" {
				r.Fail("P09", "views-concurrent", "a key was handled during %s", w.inView)
			}
			n := int(k.Rune()) - 0x5000
			w.keysGot = append(w.keysGot, n)
			if w.slowKey > 0 {
				dsim.Sleep(w.slowKey)
			}
			dsim.Y()
		},
		MakeScreen: func() (tcell.Screen, error) {
			dsim.Y()
			if makeErr != nil {
				return nil, makeErr
			}
			if startDelay > 0 {
				dsim.Sleep(startDelay)
			}
			return scr, nil
		},
		OnStart: func() {
			w.started++
			if w.returned {
				r.Fail("P11", "start-after-return", "the start-up notification came after the runner had returned")
			}
			if !scr.inited {
				r.Fail("P12", "start-too-early", "the start-up notification came before the terminal was initialised")
			}
			if startShows {
				run.ShowCursor(57, 91)
			}
			if startRuns {
				dsim.Sleep(ms(40))
			}
		},
	}
	scr.OnCursor = func(x, y int) { shown = shown || x == 57 && y == 91 }
	if wk.Permille(100) {
		// the default terminal
		tcell.DsimScreen = run.MakeScreen
		run.MakeScreen = nil
	} else {
		tcell.DsimScreen = nil
	}
	noStart := wk.Permille(100)
	if noStart {
		run.OnStart = nil
		w.started = 1
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()

	var initial *tview
	if wk.Permille(700) {
		initial = newView(-1, 0)
		initial.initial = true
	}
	actors := 0
	var ev dsim.Event
	actor := func(name string, fn func()) {
		actors++
		dsim.Go(name, func() {
			defer func() { actors--; ev.Wake() }()
			fn()
		})
	}
	var runErr error
	var cancelledAt time.Duration = -1
	var returnedAt time.Duration
	w.running = true
	begin := ms([]int{0, 0, 10, 100}[wk.Intn(4)])
	pause := func(max int) {
		switch wk.Weighted(5, 3, 2) {
		case 0:
		case 1:
			dsim.Sleep(ms(wk.Intn(5)))
		case 2:
			dsim.Sleep(ms(wk.Intn(max)))
		}
	}
	actor("runner", func() {
		dsim.Sleep(begin)
		var iv term.View
		if initial != nil {
			iv = initial
		}
		runErr = run.Run(ctx, iv)
		returnedAt = r.S.Elapsed()
		w.returned = true
		r.Say("the runner returned %v", runErr)
	})
	early := wk.Permille(500) // requests may come before Run
	lead := func() {
		if !early {
			dsim.Sleep(begin + startDelay + ms(100))
		}
	}
	limit := time.Duration(-1)
	if !stalls {
		limit = 100 * time.Millisecond
	}
	judge := func(what string, at time.Duration) {
		if d := r.S.Elapsed() - at; limit >= 0 && d > limit/10 && d > 0 {
			r.Fail("P09", "request-blocked", "%s took %v", what, d)
		}
	}
	var updates []*tview
	nu := wk.Range(0, 3)
	for i := 0; i < nu; i++ {
		i := i
		n := wk.Range(1, []int{3, 8, 25}[wk.Intn(3)])
		actor(fmt.Sprintf("updater%d", i), func() {
			lead()
			pause(300)
			for k := 0; k < n; k++ {
				v := newView(i, k)
				updates = append(updates, v)
				v.asked, v.askedStep = r.S.Elapsed(), r.S.Steps
				run.RequestUpdate(v)
				v.answered, v.answeredStep = r.S.Elapsed(), r.S.Steps
				if v.answeredStep == 0 {
					v.answeredStep = 1
				}
				judge("asking for an update", v.asked)
				pause(300)
			}
		})
	}
	np := wk.Range(0, 2)
	lastAsked := -1 // newest content a finished repaint request covers
	for i := 0; i < np; i++ {
		n := wk.Range(1, 15)
		actor("repainter", func() {
			lead()
			pause(300)
			for k := 0; k < n; k++ {
				content++
				c := content
				at := r.S.Elapsed()
				run.RequestRepaint()
				judge("asking for a repaint", at)
				if c > lastAsked {
					lastAsked = c
				}
				pause(200)
			}
		})
	}
	if wk.Permille(400) {
		n := wk.Range(1, 6)
		actor("cursor", func() {
			lead()
			for k := 0; k < n; k++ {
				pause(100)
				if wk.Permille(500) {
					run.ShowCursor(wk.Intn(5), wk.Intn(5))
				} else {
					run.HideCursor()
				}
			}
		})
	}
	if wk.Permille(600) {
		n := wk.Range(1, []int{5, 40}[wk.Intn(2)])
		actor("keyboard", func() {
			for scr.Inits == 0 && !w.returned {
				dsim.Sleep(ms(7))
			}
			for k := 0; k < n; k++ {
				if scr.InitErr != nil || w.returned {
					return
				}
				keysSent = append(keysSent, k)
				if !scr.key(tcell.NewEventKey(tcell.KeyRune, rune(0x5000+k), tcell.ModNone)) {
					return
				}
				pause(60)
			}
		})
	}
	if wk.Permille(600) {
		n := wk.Range(1, 6)
		actor("resizer", func() {
			for k := 0; k < n; k++ {
				pause(400)
				w, h := size()
				scr.SetTerm(w, h)
				r.S.Fired("resize")
				if wk.Permille(300) {
					dsim.Sleep(ms(wk.Intn(50)))
				}
				scr.Winch()
				if r.F.Permille(200) {
					scr.Odd(r.F)
				}
			}
		})
	}
	midCancel := f.Permille(350)
	if midCancel {
		actor("ender", func() {
			dsim.Sleep(ms([]int{0, 5, 60, 200, 800}[f.Intn(5)] + f.Intn(60)))
			r.S.Fired("cancel")
			cancelledAt = r.S.Elapsed()
			cancel()
		})
	}
	// wait for all but the runner
	w.doing = "act"
	for actors > 1 || (fail != "" || midCancel) && actors > 0 {
		ev.Wait(0)
	}
	if fail == "" && !midCancel {
		w.doing = "settle"
		if scr.LostResize {
			// the runner cannot know of it before it paints again
			content++
			lastAsked = content
			run.RequestRepaint()
			r.Probe("resize-notice-lost")
		}
		dsim.Sleep(90 * time.Second)
		if w.inView != "" {
			r.Fail("P09", "stuck-view", "%s has not finished", w.inView)
		}
		// convergence
		if len(updates) > 0 || initial != nil {
			id, ver, ok, why := w.look()
			cur := -1
			if !ok {
				r.Fail("P09", "not-shown", "90 s after the last request %s (%dx%d, %d events dropped)", why, scr.vw, scr.vh, scr.Dropped)
			} else {
				cur = id
				if scr.vw != scr.tw || scr.vh != scr.th {
					r.Fail("P09", "wrong-size", "the display is %dx%d, the terminal %dx%d", scr.vw, scr.vh, scr.tw, scr.th)
				}
				if ver >= 0 && lastAsked >= 0 && ver < lastAsked%0x800 {
					r.Fail("P09", "stale-content", "version %d is shown although a repaint was requested after version %d", ver, lastAsked)
				}
				if cur >= 0 && cur < len(views) {
					c := views[cur]
					for _, u := range updates {
						if u == c {
							continue
						}
						if c.by == -1 || u.by == c.by && u.seq > c.seq || u.askedStep > c.answeredStep && u.asked >= c.answered {
							r.Fail("P09", "stale-view", "view %d is shown although view %d was requested after it", c.id, u.id)
						}
					}
				}
				r.Probe("display-compared")
			}
		}
		if lastAsked >= 0 && views != nil && (len(updates) > 0 || initial != nil) && w.lastDrawn != nil && w.lastDrawn.shown < lastAsked {
			r.Fail("P09", "repaint-lost", "nothing was drawn after the last repaint request")
		}
		if len(w.keysGot) != len(keysSent) {
			r.Fail("P08", "keys-lost", "%d of %d keys reached the key handler", len(w.keysGot), len(keysSent))
		}
		if startShows && !noStart && !shown {
			r.Fail("P12", "start-too-early", "at the start-up notification the terminal could not be used yet: nothing came of showing the cursor")
		}
		if w.started != 1 {
			r.Fail("P12", "start-notification", "the start-up notification came %d times", w.started)
		}
		if w.returned {
			r.Fail("P11", "ended-alone", "the runner returned %v without being asked", runErr)
		}
		w.doing = "stop"
		cancelledAt = r.S.Elapsed()
		cancel()
		for actors > 0 {
			ev.Wait(0)
		}
	}
	for i, k := range w.keysGot {
		if i >= len(keysSent) || keysSent[i] != k {
			r.Fail("P08", "keys-order", "key %d reached the handler as number %d", k, i)
			break
		}
	}
	r.Nontriv = len(updates) > 0 || fail != "" || len(w.keysGot) > 0
	calls, shows := scr.AfterFini, scr.Shows
	w.doing = "afterwards"
	dsim.Sleep(10 * time.Second)
	w.finished = true
	if scr.Shows != shows || scr.AfterFini != calls {
		r.Fail("P11", "drawn-after-return", "the screen was drawn after the runner had returned")
	}
	if fail != "" && !midCancel || fail == "make" {
		if runErr == nil {
			r.Fail("P12", "failed-start-ignored", "the terminal could not be opened (%s) but the runner returned no error", fail)
		}
		if w.started > 0 && !noStart {
			r.Fail("P12", "failed-start-notified", "the start-up notification came although the terminal could not be opened")
		}
	}
	if fail == "" {
		if runErr != nil && !errors.Is(runErr, context.Canceled) {
			r.Fail("P11", "error-at-end", "the runner returned %v", runErr)
		}
		if scr.Inits == 1 && scr.Finis != 1 {
			r.Fail("P11", "finalised", "the terminal was restored %d times", scr.Finis)
		}
		if scr.Inits > 1 {
			r.Fail("P12", "initialised-twice", "the terminal was initialised %d times", scr.Inits)
		}
		allow := 5*time.Second + 12*(w.slowView+w.slowKey)
		if w.slowKey > 0 {
			allow += time.Duration(len(keysSent)) * w.slowKey
		}
		start := begin + startDelay
		if cancelledAt < start {
			cancelledAt = start
		}
		if returnedAt-cancelledAt > allow && !stalls {
			r.Fail("P11", "slow-end", "the runner returned %v after it was asked to end", returnedAt-cancelledAt)
		}
	}
	if n := others(r, "main"); len(n) > 0 {
		r.Fail("P11", "left-running", "still there after the end: %v", n)
	}
}

// others lists the simulated goroutines that still exist.
func others(r *R, except ...string) []string {
	var out []string
next:
	for _, g := range r.S.Alive() {
		for _, e := range except {
			if g.Name == e {
				continue next
			}
		}
		if g.Daemon {
			continue
		}
		out = append(out, fmt.Sprintf("%s (%s)", g.Name, g.Why()))
	}
	return out
}

func termPost(r *R, end string) {
	w, _ := r.Ctx.(*termWorld)
	if w == nil || w.finished || len(r.Fails) > 0 || end == "violation" {
		return
	}
	r.Fails = append(r.Fails, Failure{r.Prop, "stuck:" + w.doing, fmt.Sprintf("the run did not finish (%s) within %v; still waiting: %v", end, r.S.Elapsed(), r.S.AtEnd)})
}
