package h

import (
	"fmt"
	"strings"

	"github.com/gdamore/tcell"
	"verif.local/sim/dsim"
)

// Screen simulates the terminal below tcell.Screen, with the behaviour of
// tcell's own screen: a bounded event queue that drops what does not fit, a
// size that changes when the resize is noticed, and no effect after Fini.
type Screen struct {
	r      *R
	mu     dsim.Mutex
	cells  tcell.CellBuffer
	w, h   int // size as the program sees it
	tw, th int // size of the terminal
	style  tcell.Style
	cx, cy int
	evch   chan tcell.Event
	quit   chan struct{}

	InitErr    error
	inited     bool
	fini       bool
	Inits      int
	Finis      int
	Shows      int
	Dropped    int
	LostResize bool // the notice of the latest resize was dropped
	Calls      int  // all calls made by the program
	AfterFini  int

	vis      []cell // what the user sees, w*h
	vw, vh   int
	vcx, vcy int

	OnSet    func(x, y int, mainc rune, comb []rune, style tcell.Style)
	OnShow   func()
	OnCursor func(x, y int)
	Posted   []tcell.Event
}

type cell struct {
	ch    rune
	comb  string
	style tcell.Style
}

func NewScreen(r *R, w, h int) *Screen {
	return &Screen{r: r, tw: w, th: h, cx: -1, cy: -1, vcx: -1, vcy: -1, evch: make(chan tcell.Event, 10), quit: make(chan struct{})}
}

func (s *Screen) Init() error {
	dsim.Y()
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Calls++
	s.Inits++
	if s.InitErr != nil {
		s.r.S.Fired("screen:init-fails")
		return s.InitErr
	}
	s.inited = true
	s.resize()
	return nil
}

// resize notices the terminal's size; called with the lock held.
func (s *Screen) resize() {
	if s.w == s.tw && s.h == s.th {
		return
	}
	s.w, s.h = s.tw, s.th
	s.cells.Resize(s.w, s.h)
	s.cells.Invalidate()
	s.LostResize = s.PostEvent(tcell.NewEventResize(s.w, s.h)) != nil
}

func (s *Screen) Fini() {
	dsim.Y()
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Calls++
	s.Finis++
	s.cells.Resize(0, 0)
	if !s.fini {
		s.fini = true
		dsim.Close(s.quit)
	}
	s.r.S.Note("fini")
}

func (s *Screen) SetStyle(st tcell.Style) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.fini {
		s.style = st
	}
}
func (s *Screen) Clear() { s.Fill(' ', s.style) }
func (s *Screen) Fill(c rune, st tcell.Style) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Calls++
	if !s.fini {
		s.cells.Fill(c, st)
	} else {
		s.AfterFini++
	}
}
func (s *Screen) SetCell(x, y int, st tcell.Style, ch ...rune) {
	if len(ch) > 0 {
		s.SetContent(x, y, ch[0], ch[1:], st)
	} else {
		s.SetContent(x, y, ' ', nil, st)
	}
}
func (s *Screen) GetContent(x, y int) (rune, []rune, tcell.Style, int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.cells.GetContent(x, y)
}
func (s *Screen) SetContent(x, y int, mainc rune, comb []rune, st tcell.Style) {
	// NB: no lock: without a scheduling point this is one step
	s.Calls++
	if s.OnSet != nil {
		s.OnSet(x, y, mainc, comb, st)
	}
	if !s.fini {
		s.cells.SetContent(x, y, mainc, comb, st)
	} else {
		s.AfterFini++
	}
}
func (s *Screen) ShowCursor(x, y int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.OnCursor != nil {
		s.OnCursor(x, y)
	}
	s.cx, s.cy = x, y
}
func (s *Screen) HideCursor() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.cx, s.cy = -1, -1
}
func (s *Screen) Size() (int, int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Calls++
	return s.w, s.h
}
func (s *Screen) PollEvent() tcell.Event {
	s.Calls++
	q, e := dsim.RC(s.quit), dsim.RC(s.evch)
	if dsim.Select(false, q, e) == 0 {
		return nil
	}
	return e.Val
}
func (s *Screen) PostEvent(ev tcell.Event) error {
	if dsim.Select(true, dsim.SC(s.evch)(ev)) == 0 {
		return nil
	}
	s.Dropped++
	s.r.S.Fired("screen:event-queue-full")
	return tcell.ErrEventQFull
}

// PostEventWait is the keyboard; it gives up when the terminal is closed.
func (s *Screen) PostEventWait(ev tcell.Event) { s.key(ev) }
func (s *Screen) key(ev tcell.Event) bool {
	return dsim.Select(false, dsim.RC(s.quit), dsim.SC(s.evch)(ev)) == 1
}
func (s *Screen) EnableMouse()   {}
func (s *Screen) DisableMouse()  {}
func (s *Screen) HasMouse() bool { return false }
func (s *Screen) Colors() int    { return 256 }
func (s *Screen) Show() {
	dsim.Y()
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Calls++
	if s.fini {
		s.AfterFini++
		return
	}
	s.resize()
	s.draw()
}

func (s *Screen) draw() {
	s.Shows++
	s.vw, s.vh = s.w, s.h
	if cap(s.vis) < s.w*s.h {
		s.vis = make([]cell, s.w*s.h)
	}
	s.vis = s.vis[:s.w*s.h]
	for y := 0; y < s.h; y++ {
		for x := 0; x < s.w; x++ {
			c, comb, st, wd := s.cells.GetContent(x, y)
			s.vis[y*s.w+x] = cell{c, string(comb), st}
			if wd > 1 && x+1 < s.w {
				x++
				s.vis[y*s.w+x] = cell{0, "", st}
			}
		}
	}
	s.vcx, s.vcy = s.cx, s.cy
	if s.cx < 0 || s.cy < 0 || s.cx >= s.w || s.cy >= s.h {
		s.vcx, s.vcy = -1, -1
	}
	if s.OnShow != nil {
		s.OnShow()
	}
}
func (s *Screen) Sync()                             { s.Show() }
func (s *Screen) CharacterSet() string              { return "UTF-8" }
func (s *Screen) RegisterRuneFallback(rune, string) {}
func (s *Screen) UnregisterRuneFallback(rune)       {}
func (s *Screen) CanDisplay(rune, bool) bool        { return true }
func (s *Screen) Resize(int, int, int, int)         {}
func (s *Screen) HasKey(tcell.Key) bool             { return true }

// SetTerm changes the terminal's size; the program learns of it with Winch or
// when it next draws.
func (s *Screen) SetTerm(w, h int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.tw, s.th = w, h
}

// Winch is the arrival of the window change signal.
// Odd is input that is neither a key nor a resize: the terminal reports the
// mouse since some other program left that on, or reading it failed.
func (s *Screen) Odd(f *dsim.Stream) {
	s.r.S.Fired("screen:mouse-report")
	s.key(tcell.NewEventMouse(f.Intn(80), f.Intn(24), tcell.Button1, tcell.ModNone))
}

func (s *Screen) Winch() {
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.fini && s.inited {
		s.resize()
		s.draw()
	}
}

// Line of what is visible.
func (s *Screen) Line(y int) string {
	if y < 0 || y >= s.vh {
		return ""
	}
	var b strings.Builder
	for x := 0; x < s.vw; x++ {
		c := s.vis[y*s.vw+x]
		if c.ch == 0 {
			continue
		}
		b.WriteRune(c.ch)
		b.WriteString(c.comb)
	}
	return b.String()
}

func (s *Screen) At(x, y int) rune {
	if x < 0 || y < 0 || x >= s.vw || y >= s.vh {
		return -1
	}
	return s.vis[y*s.vw+x].ch
}

func (s *Screen) Dump() string {
	var b strings.Builder
	for y := 0; y < s.vh; y++ {
		fmt.Fprintf(&b, "|%s|\n", s.Line(y))
	}
	return b.String()
}
