package h

import (
	"context"
	"fmt"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/c-bata/go-prompt"
	"github.com/gdamore/tcell"
	"github.com/mattn/go-runewidth"
	"sigs.k8s.io/instrumentation-tools/promq/term"
	"verif.local/sim/dsim"
)

// Scenario "keys": the prompt view's input side, read directly byte by byte.
// Scenario "editor": the prompt view with the real line editor, driven by a
// user through the runner and a simulated terminal.

func init() {
	register(&Scenario{Name: "keys", Conf: func(r *R) { r.S.Cfg.Horizon = 10 * time.Minute }, Main: keysMain, Post: keysPost})
	register(&Scenario{Name: "editor", Conf: func(r *R) { r.S.Cfg.Horizon = time.Hour }, Main: editorMain, Post: keysPost})
}

type keyDef struct {
	k    tcell.Key
	mod  tcell.ModMask
	want []prompt.Key
}

// specialKeys is the reference translation.
var specialKeys = []keyDef{
	{tcell.KeyEnter, 0, []prompt.Key{prompt.Enter, prompt.ControlM, prompt.ControlJ}},
	{tcell.KeyTab, 0, []prompt.Key{prompt.Tab}},
	{tcell.KeyBacktab, 0, []prompt.Key{prompt.BackTab}},
	{tcell.KeyEscape, 0, []prompt.Key{prompt.Escape}},
	{tcell.KeyBackspace, 0, []prompt.Key{prompt.Backspace, prompt.ControlH}},
	{tcell.KeyBackspace2, 0, []prompt.Key{prompt.Backspace}},
	{tcell.KeyDelete, 0, []prompt.Key{prompt.Delete}},
	{tcell.KeyDelete, tcell.ModCtrl, []prompt.Key{prompt.ControlDelete}},
	{tcell.KeyDelete, tcell.ModShift, []prompt.Key{prompt.ShiftDelete}},
	{tcell.KeyInsert, 0, []prompt.Key{prompt.Insert}},
	{tcell.KeyHome, 0, []prompt.Key{prompt.Home}},
	{tcell.KeyEnd, 0, []prompt.Key{prompt.End}},
	{tcell.KeyPgUp, 0, []prompt.Key{prompt.PageUp}},
	{tcell.KeyPgDn, 0, []prompt.Key{prompt.PageDown}},
	{tcell.KeyUp, 0, []prompt.Key{prompt.Up}},
	{tcell.KeyDown, 0, []prompt.Key{prompt.Down}},
	{tcell.KeyLeft, 0, []prompt.Key{prompt.Left}},
	{tcell.KeyRight, 0, []prompt.Key{prompt.Right}},
	{tcell.KeyUp, tcell.ModCtrl, []prompt.Key{prompt.ControlUp}},
	{tcell.KeyDown, tcell.ModCtrl, []prompt.Key{prompt.ControlDown}},
	{tcell.KeyLeft, tcell.ModCtrl, []prompt.Key{prompt.ControlLeft}},
	{tcell.KeyRight, tcell.ModCtrl, []prompt.Key{prompt.ControlRight}},
	{tcell.KeyUp, tcell.ModShift, []prompt.Key{prompt.ShiftUp}},
	{tcell.KeyDown, tcell.ModShift, []prompt.Key{prompt.ShiftDown}},
	{tcell.KeyLeft, tcell.ModShift, []prompt.Key{prompt.ShiftLeft}},
	{tcell.KeyRight, tcell.ModShift, []prompt.Key{prompt.ShiftRight}},
	{tcell.KeyF1, 0, []prompt.Key{prompt.F1}},
	{tcell.KeyF2, 0, []prompt.Key{prompt.F2}},
	{tcell.KeyF5, 0, []prompt.Key{prompt.F5}},
	{tcell.KeyF11, 0, []prompt.Key{prompt.F11}},
	{tcell.KeyCtrlA, tcell.ModCtrl, []prompt.Key{prompt.ControlA}},
	{tcell.KeyCtrlB, tcell.ModCtrl, []prompt.Key{prompt.ControlB}},
	{tcell.KeyCtrlC, tcell.ModCtrl, []prompt.Key{prompt.ControlC}},
	{tcell.KeyCtrlD, tcell.ModCtrl, []prompt.Key{prompt.ControlD}},
	{tcell.KeyCtrlE, tcell.ModCtrl, []prompt.Key{prompt.ControlE}},
	{tcell.KeyCtrlF, tcell.ModCtrl, []prompt.Key{prompt.ControlF}},
	{tcell.KeyCtrlK, tcell.ModCtrl, []prompt.Key{prompt.ControlK}},
	{tcell.KeyCtrlL, tcell.ModCtrl, []prompt.Key{prompt.ControlL}},
	{tcell.KeyCtrlN, tcell.ModCtrl, []prompt.Key{prompt.ControlN}},
	{tcell.KeyCtrlP, tcell.ModCtrl, []prompt.Key{prompt.ControlP}},
	{tcell.KeyCtrlU, tcell.ModCtrl, []prompt.Key{prompt.ControlU}},
	{tcell.KeyCtrlW, tcell.ModCtrl, []prompt.Key{prompt.ControlW}},
	{tcell.KeyCtrlZ, tcell.ModCtrl, []prompt.Key{prompt.ControlZ}},
	{tcell.KeyCtrlUnderscore, tcell.ModCtrl, []prompt.Key{prompt.ControlUnderscore}},
	// no byte form: nothing is read
	{tcell.KeyPrint, 0, nil},
	{tcell.KeyCancel, 0, nil},
}

var textRunes = []rune("abcxyz0189 ({[=~\"',.é日本ü🙂́")

type keysWorld struct {
	doing    string
	finished bool
}

type fakeScreen struct{ r *R }

func (fakeScreen) ShowCursor(int, int) {}
func (fakeScreen) HideCursor()         {}
func (fakeScreen) RequestRepaint()     {}

func keysMain(r *R) {
	w := &keysWorld{doing: "start"}
	r.Ctx = w
	wk := r.W
	var parser prompt.ConsoleParser
	ready := make(chan struct{})
	setups := 0
	handled := 0
	v := &term.PromptView{
		Screen: fakeScreen{r},
		SetupPrompt: func(opts ...prompt.Option) *prompt.Prompt {
			p := prompt.New(nil, func(prompt.Document) []prompt.Suggest { return nil }, opts...)
			parser = prompt.DsimParser(p)
			return p
		},
		HandleInput: func(string) (*string, bool) { handled++; return nil, false },
		OnSetup: func() {
			setups++
			if setups == 1 {
				dsim.Close(ready)
			}
		},
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type sent struct {
		rn  rune
		def *keyDef
	}
	var initial *string
	// the programmatic input uses capital letters, the keyboard does not
	if wk.Permille(500) {
		n := wk.Range(0, []int{3, 20, 90}[wk.Intn(3)])
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteRune([]rune("ABCDEFGÉÄ語")[wk.Intn(10)])
		}
		s := b.String()
		initial = &s
	}
	returned := false
	var retAt time.Duration
	var runErr error
	dsim.Go("prompt", func() {
		runErr = v.Run(ctx, initial, func() {})
		returned = true
		retAt = r.S.Elapsed()
	})
	dsim.Recv(ready)
	if parser == nil {
		r.Fail("P12", "setup-too-early", "the set-up notification came before the prompt was set up")
		return
	}
	var keys []sent
	typed := 0
	typing := true
	n := wk.Range(0, []int{4, 30, 120}[wk.Intn(3)])
	plain := wk.Intn(1000)
	var ev dsim.Event
	dsim.Go("keyboard", func() {
		for i := 0; i < n; i++ {
			var k sent
			var e *tcell.EventKey
			if wk.Permille(plain) {
				k.rn = textRunes[wk.Intn(len(textRunes))]
				e = tcell.NewEventKey(tcell.KeyRune, k.rn, tcell.ModNone)
			} else {
				d := specialKeys[wk.Intn(len(specialKeys))]
				if initial != nil && d.k == tcell.KeyEnter {
					d = specialKeys[1]
				}
				k.def = &d
				e = tcell.NewEventKey(d.k, 0, d.mod)
			}
			keys = append(keys, k)
			v.HandleKey(e)
			typed++
			switch wk.Weighted(6, 2, 1) {
			case 1:
				dsim.Sleep(ms(wk.Intn(8)))
			case 2:
				dsim.Sleep(ms(wk.Intn(100)))
			}
		}
		typing = false
		ev.Wake()
	})
	// the reader
	var chunks [][]byte
	slow := ms([]int{1, 10, 10, 50}[wk.Intn(4)])
	stop := false
	empty := 0
	readerDone := false
	dsim.Go("reader", func() {
		defer func() { readerDone = true; ev.Wake() }()
		for !stop {
			b, err := parser.Read()
			if ctx.Err() != nil {
				// what is read from here on is of no interest
				dsim.Sleep(ms(10))
				continue
			}
			if err == nil && len(b) > 0 {
				c := append([]byte(nil), b...)
				chunks = append(chunks, c)
				r.S.Note("read", string(c))
				empty = 0
			} else {
				empty++
				dsim.Sleep(ms(5))
			}
			dsim.Sleep(slow)
		}
	})
	w.doing = "type"
	mid := r.F.Permille(300)
	if mid {
		dsim.Sleep(ms(r.F.Intn(400)))
		r.S.Fired("cancel")
		// the reader may stop first, with keys still coming
		if r.F.Permille(700) {
			stop = true
			r.S.Fired("reader-gone")
			dsim.Sleep(ms(r.F.Intn(300)))
		}
	} else {
		for typing || empty < 40 {
			ev.Wait(20 * time.Millisecond)
		}
	}
	w.doing = "stop"
	at := r.S.Elapsed()
	cancel()
	stop = stop || !mid
	dsim.Sleep(5 * time.Second)
	stop = true
	for !readerDone {
		ev.Wait(20 * time.Millisecond)
	}
	r.Nontriv = typed+len(chunks) > 1
	w.finished = true
	if !returned {
		r.Fail("P11", "prompt-stuck", "the prompt had not returned 5 s after it was asked to end")
	} else if retAt-at > 2*time.Second {
		r.Fail("P11", "prompt-slow-end", "the prompt returned %v after it was asked to end", retAt-at)
	}
	if runErr != nil {
		r.Fail("P11", "prompt-error-at-end", "the prompt returned %v", runErr)
	}
	if setups != 1 {
		r.Fail("P12", "setup-notification", "the set-up notification came %d times", setups)
	}
	if handled > 0 {
		r.Fail("P08", "submitted-alone", "input was handed over although none was submitted")
	}
	if typing {
		r.Fail("P11", "keyboard-stuck", "5 s after the prompt was asked to end a key press was still waiting")
	}
	if l := others(r, "main"); len(l) > 0 {
		r.Fail("P11", "left-running", "still there after the end: %v", l)
	}
	// take the chunks apart
	var got []sent
	var init []rune
	isSpecial := func(b []byte) bool {
		for _, c := range b {
			if c < 0x20 || c == 0x7f {
				return true
			}
		}
		return false
	}
	for i, c := range chunks {
		if isSpecial(c) {
			k := prompt.GetKey(c)
			if k == prompt.NotDefined && !(initial != nil && string(c) == "\r") {
				r.Fail("P08", "special-not-alone", "read %d is %q, which is not one special key on its own", i, c)
				return
			}
			if initial != nil && (k == prompt.ControlM || k == prompt.Enter || k == prompt.ControlJ) {
				init = append(init, '\r')
				continue
			}
			got = append(got, sent{def: &keyDef{want: []prompt.Key{k}}})
			continue
		}
		if !utf8.Valid(c) {
			r.Fail("P08", "rune-torn", "read %d is %q, not a whole number of characters", i, c)
			return
		}
		for _, rn := range string(c) {
			if strings.ContainsRune("ABCDEFGÉÄ語", rn) {
				init = append(init, rn)
			} else {
				got = append(got, sent{rn: rn})
			}
		}
	}
	var want []sent
	for _, k := range keys {
		if k.def != nil && k.def.want == nil {
			continue
		}
		want = append(want, k)
	}
	name := func(k sent) string {
		if k.def != nil {
			return fmt.Sprint("special ", k.def.want)
		}
		return fmt.Sprintf("%q", k.rn)
	}
	complete := !mid
	for i, g := range got {
		if i >= len(want) {
			r.Fail("P08", "extra-key", "%s was read after all %d keys", name(g), len(want))
			return
		}
		x := want[i]
		ok := false
		if g.def == nil {
			ok = x.def == nil && x.rn == g.rn
		} else if x.def != nil {
			for _, k := range x.def.want {
				ok = ok || k == g.def.want[0]
			}
		}
		if !ok {
			r.Fail("P08", "wrong-key", "key %d was %s but %s was read", i, name(x), name(g))
			return
		}
	}
	if complete && len(got) < len(want) {
		r.Fail("P08", "keys-lost", "%d of %d keys were read; the first lost one is %s", len(got), len(want), name(want[len(got)]))
	}
	wi := []rune{}
	if initial != nil {
		wi = append([]rune(*initial), '\r')
	}
	if len(init) > len(wi) || string(init) != string(wi[:len(init)]) || complete && len(init) < len(wi) {
		r.Fail("P08", "initial-input", "the initial input %q was read as %q", string(wi), string(init))
	}
	r.Probe("keys-compared")
}

func keysPost(r *R, end string) {
	w, _ := r.Ctx.(*keysWorld)
	if w == nil || w.finished || len(r.Fails) > 0 || end == "violation" {
		return
	}
	r.Fails = append(r.Fails, Failure{r.Prop, "stuck:" + w.doing, fmt.Sprintf("the run did not finish (%s) within %v; still waiting: %v", end, r.S.Elapsed(), r.S.AtEnd)})
}

// ---- the user at the line editor

// edLine is the reference line editor.
type edLine struct {
	txt  []rune
	cur  int
	hist []string // submitted
	tmp  []string // while browsing
	sel  int
}

func newEd() *edLine { e := &edLine{}; e.reset(); return e }

func (e *edLine) reset() {
	e.txt, e.cur = nil, 0
}

func (e *edLine) insert(s string) {
	rs := []rune(s)
	e.txt = append(append(append([]rune(nil), e.txt[:e.cur]...), rs...), e.txt[e.cur:]...)
	e.cur += len(rs)
}

func (e *edLine) key(k tcell.Key) {
	n := len(e.txt)
	switch k {
	case tcell.KeyLeft, tcell.KeyCtrlB:
		if e.cur > 0 {
			e.cur--
		}
	case tcell.KeyRight, tcell.KeyCtrlF:
		if e.cur < n {
			e.cur++
		}
	case tcell.KeyHome, tcell.KeyCtrlA:
		e.cur = 0
	case tcell.KeyEnd, tcell.KeyCtrlE:
		e.cur = n
	case tcell.KeyBackspace2, tcell.KeyBackspace:
		if e.cur > 0 {
			e.txt = append(append([]rune(nil), e.txt[:e.cur-1]...), e.txt[e.cur:]...)
			e.cur--
		}
	case tcell.KeyDelete, tcell.KeyCtrlD:
		if e.cur < n {
			e.txt = append(append([]rune(nil), e.txt[:e.cur]...), e.txt[e.cur+1:]...)
		}
	case tcell.KeyCtrlK:
		e.txt = append([]rune(nil), e.txt[:e.cur]...)
	case tcell.KeyCtrlU:
		e.txt = append([]rune(nil), e.txt[e.cur:]...)
		e.cur = 0
	}
}

func editorMain(r *R) {
	w := &keysWorld{doing: "start"}
	r.Ctx = w
	wk, f := r.W, r.F
	size := func() (int, int) {
		p := [][2]int{{80, 24}, {60, 30}, {120, 40}, {40, 20}, {100, 12}}[wk.Intn(5)]
		return p[0], p[1]
	}
	sw, sh := size()
	scr := NewScreen(r, sw, sh)
	var submitted []string
	type sub struct {
		text string
		done bool
		n    int
	}
	var subs []*sub
	handleDelay := ms([]int{0, 0, 50, 700}[f.Intn(4)])
	busy := false
	outputs := wk.Permille(700)
	quitWord := ":q"
	quitSeen := false
	returned := false
	var ended time.Duration
	var v *term.PromptView
	overlap := false
	v = &term.PromptView{
		SetupPrompt: func(opts ...prompt.Option) *prompt.Prompt {
			return prompt.New(nil, func(prompt.Document) []prompt.Suggest { return nil }, append([]prompt.Option{prompt.OptionPrefix(">>> ")}, opts...)...)
		},
		HandleInput: func(in string) (*string, bool) {
			if busy {
				overlap = true
			}
			busy = true
			defer func() { busy = false }()
			if returned {
				r.Fail("P11", "input-after-return", "%q was handed over after the session had ended", in)
			}
			if quitSeen {
				r.Fail("P11", "input-after-quit", "%q was handed over after the quit command", in)
			}
			s := &sub{text: in, n: len(subs)}
			subs = append(subs, s)
			submitted = append(submitted, in)
			r.S.Note("submitted", in)
			if handleDelay > 0 {
				dsim.Sleep(handleDelay)
			}
			s.done = true
			if in == quitWord {
				quitSeen = true
				return nil, true
			}
			if outputs {
				o := fmt.Sprintf("<%d>\n", s.n)
				return &o, false
			}
			return nil, false
		},
	}
	ready := make(chan struct{})
	v.OnSetup = func() { dsim.Close(ready) }
	run := &term.Runner{KeyHandler: v.HandleKey, MakeScreen: func() (tcell.Screen, error) { return scr, nil }}
	v.Screen = run
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var initial *string
	if wk.Permille(400) {
		s := []string{"", "up", "sum by (job) (rate(x[5m]))", "ü日本"}[wk.Intn(4)]
		initial = &s
	}
	promptDone := false
	dsim.Go("prompt", func() {
		v.Run(ctx, initial, cancel)
		promptDone = true
	})
	dsim.Recv(ready)
	flex := &term.StaticResizable{}
	var view term.View = &term.SplitView{DockSize: 9, Dock: term.PosBelow, Docked: v, Flexed: flex}
	dsim.Go("runner", func() {
		if err := run.Run(ctx, view); err != nil {
			r.Fail("P11", "runner-error", "the runner returned %v", err)
		}
		ended = r.S.Elapsed()
		returned = true
	})
	ed := newEd()
	key := func(k tcell.Key) bool {
		ok := scr.key(tcell.NewEventKey(k, 0, 0))
		if ok {
			ed.key(k)
			r.Say("key %s: %q, cursor at %d", tcell.KeyNames[k], string(ed.txt), ed.cur)
		}
		return ok
	}
	var want []string
	waitFor := func(n int, what string) bool {
		for i := 0; len(subs) < n || !subs[n-1].done; i++ {
			if i > 6000 {
				if returned {
					return false
				}
				r.Fail("P08", "not-submitted", "%s was not handed over within a minute (%d of %d submissions were)", what, len(subs), n)
				return false
			}
			if returned && quitSeen {
				return false
			}
			dsim.Sleep(10 * time.Millisecond)
		}
		dsim.Sleep(time.Second) // the editor starts again; what is typed before that it drops
		return true
	}
	if initial != nil {
		want = append(want, *initial)
		w.doing = "wait for the initial input"
		for scr.Inits == 0 {
			dsim.Sleep(ms(10))
		}
		if !waitFor(1, "the initial input") {
			return
		}
	}
	w.doing = "type"
	for !scr.inited {
		dsim.Sleep(ms(10))
	}
	mid := f.Permille(250)
	if mid {
		dsim.Go("ender", func() {
			dsim.Sleep(ms(f.Intn(8000)))
			r.S.Fired("cancel")
			cancel()
		})
	}
	lines := wk.Range(1, 5)
	resizes := 0
	// go-prompt computes positions as if a wide character could be split by
	// the end of a row: once such a line wrapped, its own moves are off.
	wide, wrapped := false, false
	typed := func() {
		for _, c := range ed.txt {
			wide = wide || runewidth.RuneWidth(c) > 1
		}
		wrapped = wrapped || runewidth.StringWidth(string(ed.txt))+4 >= scr.vw-1
	}
	checkLine := func() {
		// let the editor draw
		dsim.Sleep(2 * time.Second)
		if ctx.Err() != nil {
			return
		}
		line := ">>> " + string(ed.txt)
		dock := 9
		if scr.vh-1 < dock {
			dock = scr.vh - 1
		}
		if dock < 7+2*runewidth.StringWidth(line)/scr.vw || runewidth.StringWidth(line) >= scr.vw-1 || resizes > 0 || wide && wrapped {
			return
		}
		for y := scr.vh - dock; y < scr.vh; y++ {
			if strings.TrimRight(scr.Line(y), " ") == strings.TrimRight(line, " ") {
				r.Probe("line-visible")
				return
			}
		}
		r.Fail("P09", "line-not-shown", "the input line %q is not visible two seconds after the last key; the terminal shows\n%s", line, scr.Dump())
	}
	for i := 0; i < lines && !returned; i++ {
		ed.reset()
		wide, wrapped = false, false
		n := wk.Range(0, []int{6, 25, 70}[wk.Intn(3)])
		for k := 0; k < n; k++ {
			if wk.Permille(700) {
				rn := []rune("abcxyz019 ({=~é日")[wk.Intn(16)]
				if scr.key(tcell.NewEventKey(tcell.KeyRune, rn, 0)) {
					ed.insert(string(rn))
					typed()
					r.Say("key %c: %q, cursor at %d", rn, string(ed.txt), ed.cur)
				}
			} else {
				key([]tcell.Key{tcell.KeyLeft, tcell.KeyRight, tcell.KeyHome, tcell.KeyEnd, tcell.KeyBackspace2, tcell.KeyBackspace, tcell.KeyDelete, tcell.KeyCtrlA, tcell.KeyCtrlE, tcell.KeyCtrlK, tcell.KeyCtrlU, tcell.KeyCtrlB, tcell.KeyCtrlF}[wk.Intn(13)])
			}
			switch wk.Weighted(6, 3, 2) {
			case 1:
				dsim.Sleep(ms(wk.Intn(10)))
			case 2:
				dsim.Sleep(ms(wk.Intn(150)))
			}
			if wk.Permille(15) {
				w, h := size()
				scr.SetTerm(w, h)
				scr.Winch()
				resizes++
				r.S.Fired("resize")
				if r.F.Permille(200) {
					scr.Odd(r.F)
				}
			}
		}
		if wk.Permille(400) {
			checkLine()
		}
		if returned || ctx.Err() != nil {
			break
		}
		if string(ed.txt) == quitWord {
			scr.key(tcell.NewEventKey(tcell.KeyRune, 'x', 0))
			ed.insert("x")
		}
		want = append(want, string(ed.txt))
		r.Say("submit %q", string(ed.txt))
		if !scr.key(tcell.NewEventKey(tcell.KeyEnter, 0, 0)) {
			want = want[:len(want)-1]
			break
		}
		if !waitFor(len(want), fmt.Sprintf("%q", string(ed.txt))) {
			break
		}
		resizes = 0
	}
	r.Nontriv = len(subs) > 0
	quit := !mid && wk.Permille(600)
	at := r.S.Elapsed()
	if quit && !returned {
		w.doing = "quit"
		for _, c := range quitWord {
			scr.key(tcell.NewEventKey(tcell.KeyRune, c, 0))
		}
		scr.key(tcell.NewEventKey(tcell.KeyEnter, 0, 0))
		want = append(want, quitWord)
		if f.Permille(500) { // the user keeps typing
			dsim.Go("keyboard", func() {
				for k := 0; k < 120; k++ {
					if !scr.key(tcell.NewEventKey(tcell.KeyRune, 'z', 0)) {
						return
					}
				}
			})
			r.S.Fired("keys-during-quit")
		}
		dsim.Sleep(8*time.Second + handleDelay)
	} else {
		w.doing = "cancel"
		if !mid {
			cancel()
		} else {
			dsim.Sleep(10 * time.Second)
		}
		dsim.Sleep(8*time.Second + handleDelay)
	}
	w.finished = true
	for i, s := range submitted {
		if i >= len(want) || s != want[i] {
			x := "nothing"
			if i < len(want) {
				x = fmt.Sprintf("%q", want[i])
			}
			r.Fail("P08", "wrong-submission", "submission %d was %q, the user entered %s", i, s, x)
			break
		}
	}
	if !mid && len(submitted) < len(want) {
		r.Fail("P08", "submission-lost", "%q was never handed over", want[len(submitted)])
	}
	if overlap {
		r.Fail("P08", "submissions-overlap", "a submission was handed over before the previous one was handled")
	}
	if quit && !returned {
		r.Fail("P11", "quit-ignored", "the session was still there 8 s after the quit command")
	}
	if !returned || !promptDone {
		r.Fail("P11", "not-ended", "after being asked to end: runner ended %v, prompt ended %v", returned, promptDone)
	}
	if quit && ended-at > 5*time.Second+handleDelay {
		r.Fail("P11", "slow-end", "the session ended %v after the quit command", ended-at)
	}
	if scr.Finis != 1 {
		r.Fail("P11", "finalised", "the terminal was restored %d times", scr.Finis)
	}
	if l := others(r, "main"); len(l) > 0 {
		r.Fail("P11", "left-running", "still there after the end: %v", l)
	}
}
