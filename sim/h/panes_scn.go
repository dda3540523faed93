package h

import (
	"context"
	"fmt"
	"math"
	"strings"
	"time"
	"unicode"

	"github.com/c-bata/go-prompt"
	"github.com/gdamore/tcell"
	"github.com/mattn/go-runewidth"
	"sigs.k8s.io/instrumentation-tools/promq/term"
	"sigs.k8s.io/instrumentation-tools/promq/term/plot"
	"verif.local/sim/dsim"
)

// Scenario "panes": trees of split views with text boxes and graphs on a
// terminal that changes its size between and during frames, and the prompt's
// output area against a reference terminal.

func init() {
	register(&Scenario{Name: "panes", Conf: func(r *R) { r.S.Cfg.Horizon = time.Hour }, Main: panesMain, Post: keysPost})
}

func panesMain(r *R) {
	w := &keysWorld{doing: "draw"}
	r.Ctx = w
	mode := r.W.Weighted(6, 3, 3)
	if r.Prop == "P16" {
		mode = 0
	}
	switch mode {
	case 0:
		panesTree(r)
	case 1:
		panesWriter(r)
	case 2:
		panesWriterLoad(r)
	}
	w.finished = true
}

// ---- trees

type pane struct {
	r    *R
	name string
	box  term.PositionBox
	set  int
	leaf bool

	split         *term.SplitView
	docked, other *pane
	text          *term.TextBox
	chunks        []string
	graph         *term.GraphView
	axes          plot.PlatonicAxes // of the graph, by the reference
	book          labelBook
	stat          *term.StaticResizable
	cur           **pane
	flushed       int
}

func (p *pane) inner() term.Resizable {
	switch {
	case p.split != nil:
		return p.split
	case p.text != nil:
		return p.text
	case p.graph != nil:
		return p.graph
	}
	return p.stat
}

func (p *pane) SetBox(b term.PositionBox) {
	if b.Cols < 0 || b.Rows < 0 || b.StartCol < 0 || b.StartRow < 0 {
		p.r.Fail("P10", "negative-box", "%s was given the area %+v", p.name, b)
	}
	p.box = b
	p.set++
	p.inner().SetBox(b)
	if p.split != nil {
		p.judge()
	}
}

func (p *pane) FlushTo(s tcell.Screen) {
	p.flushed++
	if f, ok := p.inner().(term.Flushable); ok {
		if p.leaf {
			*p.cur = p
		}
		f.FlushTo(s)
		if p.leaf {
			*p.cur = nil
		}
	}
}

func inside(in, out term.PositionBox) bool {
	if in.Cols == 0 || in.Rows == 0 {
		return true // takes no room
	}
	return in.StartCol >= out.StartCol && in.StartRow >= out.StartRow && in.StartCol+in.Cols <= out.StartCol+out.Cols && in.StartRow+in.Rows <= out.StartRow+out.Rows
}

func overlap(a, b term.PositionBox) bool {
	if a.Cols == 0 || a.Rows == 0 || b.Cols == 0 || b.Rows == 0 {
		return false
	}
	return a.StartCol < b.StartCol+b.Cols && b.StartCol < a.StartCol+a.Cols && a.StartRow < b.StartRow+b.Rows && b.StartRow < a.StartRow+a.Rows
}

// judge checks what a split view made of its area.
func (p *pane) judge() {
	r, d, o := p.r, p.docked.box, p.other.box
	s := p.split
	what := fmt.Sprintf("%s %+v (dock %v, size %d, at most %d%%): docked %+v, other %+v", p.name, p.box, s.Dock, s.DockSize, s.DockMaxPercent, d, o)
	if !inside(d, p.box) || !inside(o, p.box) {
		r.Fail("P10", "outside-split", "an area reaches out of the split: %s", what)
	}
	if overlap(d, o) {
		r.Fail("P10", "split-overlap", "the areas overlap: %s", what)
	}
	n, ds, os, dc, oc, c := p.box.Rows, d.Rows, o.Rows, d.Cols, o.Cols, p.box.Cols
	if s.Dock == term.PosLeft || s.Dock == term.PosRight {
		n, ds, os, dc, oc, c = p.box.Cols, d.Cols, o.Cols, d.Rows, o.Rows, p.box.Rows
	}
	if dc != c || oc != c {
		r.Fail("P10", "split-across", "an area is not as long as the split: %s", what)
	}
	if n >= 1 && os < 1 {
		r.Fail("P10", "flexed-gone", "the flexed area is empty: %s", what)
	}
	if ds > s.DockSize {
		r.Fail("P10", "dock-too-big", "the docked area is larger than asked: %s", what)
	}
	lim := math.Inf(1)
	if s.DockMaxPercent > 0 {
		lim = math.Ceil(float64(n) * float64(s.DockMaxPercent) / 100)
		if float64(ds) > lim {
			r.Fail("P10", "dock-over-percent", "the docked area is more than its part: %s", what)
		}
	}
	if s.DockSize <= n-1 && (s.DockMaxPercent == 0 || float64(s.DockSize) <= math.Floor(float64(n)*float64(s.DockMaxPercent)/100+1e-9)) && ds != s.DockSize {
		r.Fail("P10", "dock-size", "the docked area does not have the size asked for: %s", what)
	}
	if n >= 2 && ds >= 1 && os >= 1 {
		ok := true
		switch s.Dock {
		case term.PosBelow:
			ok = d.StartRow >= o.StartRow+o.Rows
		case term.PosAbove:
			ok = o.StartRow >= d.StartRow+d.Rows
		case term.PosLeft:
			ok = o.StartCol >= d.StartCol+d.Cols
		case term.PosRight:
			ok = d.StartCol >= o.StartCol+o.Cols
		}
		if !ok && c > 0 {
			r.Fail("P10", "dock-side", "the docked area is on the wrong side: %s", what)
		}
	}
}

type simPoint struct {
	x int64
	y float64
}

func (p simPoint) X() int64   { return p.x }
func (p simPoint) Y() float64 { return p.y }

type simSeries struct {
	id  plot.SeriesId
	pts []plot.Point
}

func (s *simSeries) Title() string        { return fmt.Sprint("series ", s.id) }
func (s *simSeries) Id() plot.SeriesId    { return s.id }
func (s *simSeries) Points() []plot.Point { return s.pts }

var textPieces = []string{"a", "b", " ", "word", "日", "本語", "é", "e\u0301", "\u0301", "x\u0301\u0308", "\n", "\n\n", "• ", "up{job=\"x\"}", "\t", "\r", "🙂", "averyveryverylongwordwithoutanyspaces", "\x00", "", "-"}

func (r *R) text(max int) string {
	var b strings.Builder
	for n := r.W.Intn(max); n > 0; n-- {
		b.WriteString(textPieces[r.W.Intn(len(textPieces))])
	}
	return b.String()
}

// layout is the reference for wrapped text.
func layout(chunks []string, cols, rows int) []string {
	lines := []string{""}
	col := 0
	nl := func() { lines = append(lines, ""); col = 0 }
	for _, c := range chunks {
		var cell string
		width := 0
		put := func() {
			if cell == "" || width > cols {
				cell = ""
				return
			}
			if col+width > cols {
				nl()
			}
			lines[len(lines)-1] += cell
			col += width
			cell = ""
		}
		for _, rn := range c {
			switch {
			case rn == '\n':
				put()
				nl()
			case unicode.IsControl(rn):
			case runewidth.RuneWidth(rn) == 0:
				if cell == "" {
					cell, width = " ", 1
				}
				cell += string(rn)
			default:
				put()
				cell, width = string(rn), runewidth.RuneWidth(rn)
			}
		}
		put()
	}
	if len(lines) > rows {
		lines = lines[len(lines)-rows:]
	}
	for len(lines) < rows {
		lines = append(lines, "")
	}
	for i := range lines {
		lines[i] = strings.TrimRight(lines[i], " ")
	}
	return lines
}

func (r *R) value() float64 {
	wk := r.W
	switch wk.Weighted(8, 2, 2, 1, 1, 1, 1, 1, 1) {
	case 0:
		return float64(wk.Intn(2000)-1000) / 7
	case 1:
		return 0
	case 2:
		return math.NaN()
	case 3:
		return math.Inf(1)
	case 4:
		return math.Inf(-1)
	case 5:
		return math.MaxFloat64
	case 6:
		return -math.MaxFloat64
	case 7:
		return math.SmallestNonzeroFloat64
	}
	return float64(1<<53) + float64(wk.Intn(4))
}

func (r *R) seriesSet() plot.SeriesSet {
	wk := r.W
	var out plot.SeriesSet
	// 0 any values, 1 flat, 2 usual, 3 near a large value, 4 any spread around any value
	kind := wk.Weighted(2, 1, 2, 2, 3)
	base, unit := 0.0, math.Pow(10, float64(wk.Range(-15, 15)))
	if wk.Permille(500) {
		base = math.Pow(10, float64(wk.Range(-15, 15))) * float64(wk.Range(-3, 3))
	}
	flat := r.value()
	step := []int64{1, 1000, 15000, 86400000, 1 << 50}[wk.Intn(5)]
	start := []int64{0, 1600000000000, -5, -1 << 62}[wk.Intn(4)]
	for n := wk.Range(0, 4); n > 0; n-- {
		s := &simSeries{id: plot.SeriesId(1 + wk.Intn(254))}
		x := start + step*int64(wk.Intn(5))
		shape, level := wk.Intn(4), float64(wk.Intn(100)) // 0 anything, 1 rising, 2 falling, 3 steps
		for k := wk.Intn([]int{2, 4, 4, 10, 30, 200}[wk.Weighted(3, 3, 3, 3, 3, 1)]); k > 0; k-- {
			y := flat
			switch kind {
			case 0:
				y = r.value()
			case 2:
				y = float64(wk.Intn(100))
			case 3:
				y = 1e15 + float64(wk.Intn(3))
			case 4:
				switch shape {
				case 0:
					level = float64(wk.Intn(100))
				case 1:
					level += float64(wk.Intn(10))
				case 2:
					level -= float64(wk.Intn(10))
				case 3:
					if wk.Permille(200) {
						level = float64(wk.Intn(100))
					}
				}
				y = base + unit*level
			}
			s.pts = append(s.pts, simPoint{x, y})
			x += step * int64(1+wk.Intn(3))
		}
		out = append(out, s)
	}
	return out
}

func (r *R) tree(depth int, cur **pane, leaves *[]*pane) *pane {
	wk := r.W
	p := &pane{r: r, cur: cur}
	if depth > 0 && wk.Permille(700) {
		p.name = "a split"
		p.docked = r.tree(depth-1, cur, leaves)
		p.other = r.tree(depth-1, cur, leaves)
		p.split = &term.SplitView{
			Dock:     []term.DockPos{term.PosBelow, term.PosAbove, term.PosLeft, term.PosRight}[wk.Intn(4)],
			DockSize: []int{0, 1, 2, 3, 9, 10, 24, 80, 1000}[wk.Intn(9)],
			Docked:   p.docked, Flexed: p.other,
		}
		if wk.Permille(500) {
			p.split.DockMaxPercent = []int{1, 20, 20, 33, 50, 99, 100, 150}[wk.Intn(8)]
		}
		return p
	}
	p.leaf = true
	p.name = fmt.Sprintf("leaf %d", len(*leaves))
	*leaves = append(*leaves, p)
	kind := wk.Weighted(5, 4, 1)
	if r.Prop == "P16" && wk.Permille(700) {
		kind = 1
	}
	switch kind {
	case 0:
		p.text = &term.TextBox{}
		p.name += " (text)"
	case 1:
		p.name += " (graph)"
		p.graph = &term.GraphView{
			RangeLabeler: p.book.rangeLabel,
			DomainLabeler: p.book.domainLabel([]plot.DomainLabeler{
				func(v int64) string { return time.UnixMilli(v).UTC().Format("04:05") },
				func(v int64) string { return fmt.Sprintf("%dms", v) },
				func(v int64) string { return "" },
			}[wk.Intn(3)]),
			DomainTickSpacing: []int{0, 0, 1, 3, 20}[wk.Intn(5)],
			RangeTickSpacing:  []int{0, 0, 1, 3, 20}[wk.Intn(5)],
		}
	case 2:
		p.stat = &term.StaticResizable{}
		p.name += " (static)"
	}
	return p
}

func panesTree(r *R) {
	wk := r.W
	size := func() (int, int) {
		if wk.Permille(400) {
			p := [][2]int{{80, 24}, {1, 1}, {2, 1}, {1, 9}, {5, 3}, {10, 10}, {33, 7}, {12, 30}, {200, 50}}[wk.Weighted(3, 3, 3, 3, 3, 3, 3, 3, 1)]
			return p[0], p[1]
		}
		return 1 + wk.Intn(40), 1 + wk.Intn(24)
	}
	sw, sh := size()
	scr := NewScreen(r, sw, sh)
	scr.Init()
	var cur *pane
	scr.OnSet = func(x, y int, mainc rune, comb []rune, _ tcell.Style) {
		if cur == nil {
			return
		}
		b := cur.box
		if x < b.StartCol || y < b.StartRow || x >= b.StartCol+b.Cols || y >= b.StartRow+b.Rows {
			r.Fail("P10", "outside-box", "%s with the area %+v drew %q at column %d, row %d", cur.name, b, mainc, x, y)
		}
	}
	var leaves []*pane
	depth := wk.Intn(4)
	if r.Prop == "P16" {
		depth = wk.Weighted(4, 3, 2)
	}
	root := r.tree(depth, &cur, &leaves)
	prev := plot.AutoAxes()
	frames := wk.Range(1, 7)
	r.Nontriv = len(leaves) > 1 || frames > 1
	changed := true
	for f := 0; f < frames; f++ {
		for _, l := range leaves {
			switch {
			case l.text != nil && wk.Permille(500):
				for n := wk.Intn(6); n > 0; n-- {
					s := r.text([]int{3, 12, 60}[wk.Intn(3)])
					l.text.WriteString(s, tcell.StyleDefault)
					l.chunks = append(l.chunks, s)
				}
			case l.graph != nil && wk.Permille(600):
				if wk.Permille(100) {
					l.graph.Graph = nil
					continue
				}
				axes := plot.AutoAxes()
				if wk.Permille(500) {
					axes = axes.WithPreviousRange(prev)
				}
				set := r.seriesSet()
				l.graph.Graph = plot.DataToPlatonicGraph(set, axes)
				l.axes = axesOf(set, axes)
				if l.graph.Graph.RangeMin != l.axes.RangeMin || l.graph.Graph.RangeMax != l.axes.RangeMax || l.graph.Graph.DomainMin != l.axes.DomainMin || l.graph.Graph.DomainMax != l.axes.DomainMax {
					r.Fail("P16", "axes-wrong", "the axes are %+v, the data and the range before need %+v", l.graph.Graph.PlatonicAxes, l.axes)
				}
				prev = l.axes
			}
		}
		if f > 0 && wk.Permille(500) {
			w, h := size()
			scr.SetTerm(w, h)
			r.S.Fired("resize")
			scr.Show()
			changed = true
		}
		w, h := scr.Size()
		clean := changed || wk.Permille(400)
		if clean {
			scr.Clear()
			root.SetBox(term.PositionBox{Cols: w, Rows: h})
			changed = false
		}
		for _, l := range leaves {
			l.book.reset()
		}
		for i, a := range leaves {
			if !inside(a.box, term.PositionBox{Cols: w, Rows: h}) {
				r.Fail("P10", "outside-screen", "%s has the area %+v on a %dx%d screen", a.name, a.box, w, h)
			}
			for _, b := range leaves[:i] {
				if overlap(a.box, b.box) {
					r.Fail("P10", "overlap", "%s %+v and %s %+v overlap", a.name, a.box, b.name, b.box)
				}
			}
		}
		root.FlushTo(scr)
		scr.Show()
		if scr.vw != w || scr.vh != h {
			r.Fail("P10", "harness", "size changed")
		}
		for _, l := range leaves {
			if l.box.Cols < 1 || l.box.Rows < 1 {
				continue
			}
			// nothing of the neighbour to the left reaches into the area
			for y := l.box.StartRow; y < l.box.StartRow+l.box.Rows; y++ {
				if x := l.box.StartCol; x > 0 && scr.At(x, y) == 0 && scr.At(x-1, y) != 0 {
					r.Fail("P10", "wide-spill", "the wide character %q at column %d, row %d reaches into %s %+v", scr.At(x-1, y), x-1, y, l.name, l.box)
				}
			}
			if l.graph != nil && l.graph.Graph != nil && clean {
				r.judgeGraph(scr, l.box, l.graph.Graph.Series, l.axes, &l.book, l.name)
			}
			if l.text == nil {
				continue
			}
			want := layout(l.chunks, l.box.Cols, l.box.Rows)
			for i := range want {
				got := scr.span(l.box.StartCol, l.box.StartRow+i, l.box.Cols)
				if got != want[i] {
					r.Fail("P10", "text-wrong", "row %d of %s %+v shows %q instead of %q; text %q", i, l.name, l.box, got, want[i], l.chunks)
				}
			}
			r.Probe("text-compared")
		}
		r.Probe("frame-drawn")
	}
}

// span is the visible text of a part of a row.
func (s *Screen) span(x, y, n int) string {
	var b strings.Builder
	for i := x; i < x+n && i < s.vw; i++ {
		c := s.vis[y*s.vw+i]
		if c.ch == 0 {
			continue
		}
		b.WriteRune(c.ch)
		b.WriteString(c.comb)
	}
	return strings.TrimRight(b.String(), " ")
}

// ---- the prompt's output

// refTerm is the reference terminal: one character per cell.
type refTerm struct {
	w, h int
	c    [][]string
	x, y int // x == w: the next character wraps
}

func blank(n int) []string {
	o := make([]string, n)
	for i := range o {
		o[i] = " "
	}
	return o
}

func (t *refTerm) resize(w, h int) {
	var c [][]string
	for y := 0; y < h; y++ {
		l := blank(w)
		if y < len(t.c) {
			copy(l, t.c[y])
		}
		c = append(c, l)
	}
	t.w, t.h, t.c = w, h, c
}

// nl: here a new line also clears the rest of the old one, as documented.
func (t *refTerm) nl() {
	t.clear(t.y, t.x, t.w)
	t.x = 0
	t.index()
}

func (t *refTerm) index() {
	if t.y < t.h-1 {
		t.y++
		return
	}
	t.c = append(t.c[1:], blank(t.w))
}

func (t *refTerm) rindex() {
	if t.y > 0 {
		t.y--
		return
	}
	t.c = append([][]string{blank(t.w)}, t.c[:t.h-1]...)
}

func (t *refTerm) write(s string) {
	for _, rn := range s {
		switch {
		case rn == '\n':
			t.nl()
		case unicode.IsControl(rn):
		case runewidth.RuneWidth(rn) == 0:
			t.c[t.y][t.x-1] += string(rn)
		default:
			if t.x >= t.w {
				t.nl()
			}
			t.c[t.y][t.x] = string(rn)
			t.x++
		}
	}
}

func (t *refTerm) clear(y, a, b int) {
	for x := a; x < b && x < t.w; x++ {
		t.c[y][x] = " "
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

type cursorScreen struct {
	w      *dsim.Sim
	shown  bool
	x, y   int
	OnShow func(x, y int)
}

func (c *cursorScreen) ShowCursor(x, y int) {
	c.shown, c.x, c.y = true, x, y
	if c.OnShow != nil {
		c.OnShow(x, y)
	}
}
func (c *cursorScreen) HideCursor()     { c.shown = false }
func (c *cursorScreen) RequestRepaint() {}

// promptWriter starts a prompt view and returns the writer that the line
// editor would use; the editor itself stays silent.
func promptWriter(r *R, cs *cursorScreen) (*term.PromptView, prompt.ConsoleWriter, func()) {
	var out prompt.ConsoleWriter
	v := &term.PromptView{
		Screen: cs,
		SetupPrompt: func(opts ...prompt.Option) *prompt.Prompt {
			none := func(prompt.Document) []prompt.Suggest { return nil }
			p := prompt.New(nil, none, opts...)
			out = prompt.DsimWriter(p)
			return prompt.New(nil, none, prompt.OptionParser(prompt.DsimParser(p)), prompt.OptionWriter(nullWriter{}))
		},
		HandleInput: func(string) (*string, bool) { return nil, false },
	}
	ready := make(chan struct{})
	v.OnSetup = func() { dsim.Close(ready) }
	ctx, cancel := context.WithCancel(context.Background())
	dsim.Go("prompt", func() { v.Run(ctx, nil, func() {}) })
	dsim.Recv(ready)
	return v, out, cancel
}

type nullWriter struct{}

func (nullWriter) WriteRaw([]byte)                           {}
func (nullWriter) Write([]byte)                              {}
func (nullWriter) WriteRawStr(string)                        {}
func (nullWriter) WriteStr(string)                           {}
func (nullWriter) Flush() error                              { return nil }
func (nullWriter) EraseScreen()                              {}
func (nullWriter) EraseUp()                                  {}
func (nullWriter) EraseDown()                                {}
func (nullWriter) EraseStartOfLine()                         {}
func (nullWriter) EraseEndOfLine()                           {}
func (nullWriter) EraseLine()                                {}
func (nullWriter) ShowCursor()                               {}
func (nullWriter) HideCursor()                               {}
func (nullWriter) CursorGoTo(int, int)                       {}
func (nullWriter) CursorUp(int)                              {}
func (nullWriter) CursorDown(int)                            {}
func (nullWriter) CursorForward(int)                         {}
func (nullWriter) CursorBackward(int)                        {}
func (nullWriter) AskForCPR()                                {}
func (nullWriter) SaveCursor()                               {}
func (nullWriter) UnSaveCursor()                             {}
func (nullWriter) ScrollDown()                               {}
func (nullWriter) ScrollUp()                                 {}
func (nullWriter) SetTitle(string)                           {}
func (nullWriter) ClearTitle()                               {}
func (nullWriter) SetColor(prompt.Color, prompt.Color, bool) {}

var narrowPieces = []string{"a", "b", "c", " ", "xyz", "up{}", "é", "e\u0301", "o\u0308\u0301p", "\n", "rate(http_requests_total[5m])", "0123456789"}

func randBox(r *R, sw, sh int) term.PositionBox {
	wk := r.W
	b := term.PositionBox{StartCol: wk.Intn(sw), StartRow: wk.Intn(sh)}
	b.Cols = wk.Range(1, sw-b.StartCol)
	b.Rows = wk.Range(1, sh-b.StartRow)
	if wk.Permille(300) {
		b.Cols = min(b.Cols, 1+wk.Intn(3))
	}
	if wk.Permille(300) {
		b.Rows = min(b.Rows, 1+wk.Intn(2))
	}
	if wk.Permille(80) {
		if wk.Permille(500) {
			b.Cols = 0
		} else {
			b.Rows = 0
		}
	}
	return b
}

// panesWriter compares the output area with the reference terminal.
func panesWriter(r *R) {
	wk := r.W
	cs := &cursorScreen{w: r.S}
	v, out, cancel := promptWriter(r, cs)
	defer func() {
		cancel()
		dsim.Sleep(time.Second)
	}()
	sw, sh := 1+wk.Intn(40), 1+wk.Intn(12)
	scr := NewScreen(r, sw, sh)
	scr.Init()
	box := randBox(r, sw, sh)
	scr.OnSet = func(x, y int, mainc rune, comb []rune, _ tcell.Style) {
		if x < box.StartCol || y < box.StartRow || x >= box.StartCol+box.Cols || y >= box.StartRow+box.Rows {
			r.Fail("P10", "outside-box", "the prompt with the area %+v drew %q at column %d, row %d", box, mainc, x, y)
		}
	}
	t := &refTerm{}
	place := func(b term.PositionBox) {
		box = b
		v.SetBox(b)
		r.Say("the area is now %+v", b)
		scr.Clear()
		if b.Cols == 0 || b.Rows == 0 {
			v.FlushTo(scr)
			return
		}
		if b.Cols >= t.w && b.Rows >= t.h && t.w > 0 {
			// what was there stays
			t.resize(b.Cols, b.Rows)
			if t.x >= t.w-1 {
				out.CursorGoTo(0, 0)
				t.x, t.y = 0, 0
			}
		} else {
			t.resize(b.Cols, b.Rows)
			out.EraseScreen()
			out.CursorGoTo(0, 0)
			t.x, t.y = 0, 0
			for y := range t.c {
				t.clear(y, 0, t.w)
			}
		}
		if t.x > 0 && t.x >= t.w {
			out.CursorGoTo(0, 0)
			t.x, t.y = 0, 0
		}
	}
	place(box)
	if box.Cols == 0 || box.Rows == 0 {
		b := term.PositionBox{Cols: sw, Rows: sh}
		place(b)
	}
	n := wk.Range(1, []int{10, 60, 300}[wk.Intn(3)])
	r.Nontriv = n > 3
	for i := 0; i < n; i++ {
		op := wk.Weighted(10, 3, 1, 1, 2, 1, 1, 1, 2, 2, 2, 2, 2, 1, 1, 2)
		if t.x >= t.w && op > 1 && op != 12 {
			// what these do while a wrap is pending differs between terminals
			op = 12
		}
		k := wk.Intn(6)
		switch op {
		case 0:
			s := ""
			for m := wk.Intn(5); m >= 0; m-- {
				s += narrowPieces[wk.Intn(len(narrowPieces))]
			}
			r.Say("write %q", s)
			out.WriteStr(s)
			t.write(s)
		case 1:
			r.Say("newline")
			out.WriteRaw([]byte("\n"))
			t.nl()
		case 2:
			r.Say("erase screen")
			out.EraseScreen()
			for y := range t.c {
				t.clear(y, 0, t.w)
			}
		case 3:
			r.Say("erase up")
			out.EraseUp()
			for y := 0; y < t.y; y++ {
				t.clear(y, 0, t.w)
			}
			t.clear(t.y, 0, t.x+1)
		case 4:
			r.Say("erase down")
			out.EraseDown()
			t.clear(t.y, t.x, t.w)
			for y := t.y + 1; y < t.h; y++ {
				t.clear(y, 0, t.w)
			}
		case 5:
			r.Say("erase start of line")
			out.EraseStartOfLine()
			t.clear(t.y, 0, t.x+1)
		case 6:
			r.Say("erase end of line")
			out.EraseEndOfLine()
			t.clear(t.y, t.x, t.w)
		case 7:
			r.Say("erase line")
			out.EraseLine()
			t.clear(t.y, 0, t.w)
		case 8:
			r.Say("forward %d", k)
			out.CursorForward(k)
			t.x = min(t.x+k, t.w-1)
		case 9:
			r.Say("backward %d", k)
			out.CursorBackward(k)
			t.x = max(t.x-k, 0)
		case 10:
			r.Say("up %d", k)
			out.CursorUp(k)
			t.y = max(t.y-k, 0)
		case 11:
			r.Say("down %d", k)
			out.CursorDown(k)
			t.y = min(t.y+k, t.h-1)
		case 12:
			r.Say("home")
			out.CursorGoTo(0, 0)
			t.x, t.y = 0, 0
		case 13:
			r.Say("scroll down")
			out.ScrollDown()
			t.index()
		case 14:
			r.Say("scroll up")
			out.ScrollUp()
			t.rindex()
		case 15:
			if wk.Permille(500) {
				b := randBox(r, sw, sh)
				place(b)
				if b.Cols == 0 || b.Rows == 0 {
					cs.shown = true
					out.ShowCursor()
					if cs.shown {
						r.Fail("P10", "cursor-nowhere", "the cursor was shown at %d,%d although the area is empty", cs.x, cs.y)
					}
					t.w = 0
					place(term.PositionBox{Cols: sw, Rows: sh})
				}
			}
		}
		if wk.Permille(300) {
			out.SetColor(prompt.Color(wk.Intn(17)), prompt.Color(wk.Intn(17)), wk.Permille(500))
		}
		if !wk.Permille(250) && i < n-1 {
			continue
		}
		cs.shown = false
		out.ShowCursor()
		if wx, wy := box.StartCol+min(t.x, t.w-1), box.StartRow+t.y; !cs.shown || cs.x != wx || cs.y != wy {
			r.Fail("P10", "cursor-wrong", "the cursor was shown (%v) at column %d, row %d instead of %d, %d; area %+v", cs.shown, cs.x, cs.y, wx, wy, box)
		}
		out.Flush()
		v.FlushTo(scr)
		scr.Show()
		for y := 0; y < t.h; y++ {
			want := strings.TrimRight(strings.Join(t.c[y], ""), " ")
			if got := scr.span(box.StartCol, box.StartRow+y, box.Cols); got != want {
				r.Fail("P10", "output-wrong", "row %d of the prompt's area %+v shows %q, a terminal would show %q", y, box, got, want)
			}
		}
		r.Probe("output-compared")
	}
}

// panesWriterLoad: output of any kind while the area changes and is drawn.
func panesWriterLoad(r *R) {
	wk := r.W
	cs := &cursorScreen{w: r.S}
	v, out, cancel := promptWriter(r, cs)
	sw, sh := 1+wk.Intn(40), 1+wk.Intn(12)
	scr := NewScreen(r, sw, sh)
	scr.Init()
	boxes := []term.PositionBox{randBox(r, sw, sh)}
	first := 0 // the oldest box that could be in force for the current call
	cur := boxes[0]
	cs.OnShow = func(x, y int) {
		for _, b := range boxes[first:] {
			if x >= b.StartCol && y >= b.StartRow && x < b.StartCol+b.Cols && y < b.StartRow+b.Rows {
				return
			}
		}
		r.Fail("P10", "cursor-outside", "the cursor was shown at column %d, row %d, outside of %+v", x, y, boxes[first:])
	}
	scr.OnSet = func(x, y int, mainc rune, comb []rune, _ tcell.Style) {
		b := cur
		if x < b.StartCol || y < b.StartRow || x >= b.StartCol+b.Cols || y >= b.StartRow+b.Rows {
			r.Fail("P10", "outside-box", "the prompt with the area %+v drew %q at column %d, row %d", b, mainc, x, y)
		}
	}
	v.SetBox(cur)
	var ev dsim.Event
	writing, drawing := true, true
	n := wk.Range(1, 200)
	settled := 0
	dsim.Go("writer", func() {
		for i := 0; i < n; i++ {
			k := wk.Intn(9) - 2
			switch wk.Intn(18) {
			case 0, 1, 2:
				out.WriteStr(r.text(8))
			case 3:
				out.WriteRaw([]byte("\n"))
			case 4:
				out.EraseScreen()
			case 5:
				out.EraseUp()
			case 6:
				out.EraseDown()
			case 7:
				out.EraseStartOfLine()
			case 8:
				out.EraseEndOfLine()
			case 9:
				out.EraseLine()
			case 10:
				out.CursorForward(k)
			case 11:
				out.CursorBackward(k)
			case 12:
				out.CursorUp(k)
			case 13:
				out.CursorDown(k)
			case 14:
				out.CursorGoTo(wk.Intn(60)-3, wk.Intn(60)-3)
			case 15:
				out.ScrollDown()
			case 16:
				out.ScrollUp()
			case 17:
				out.Flush()
			}
			if wk.Permille(300) {
				first = settled
				out.ShowCursor()
			}
			if wk.Permille(100) {
				dsim.Sleep(ms(wk.Intn(4)))
			}
		}
		writing = false
		ev.Wake()
	})
	m := wk.Range(1, 40)
	dsim.Go("drawer", func() {
		for i := 0; i < m; i++ {
			if wk.Permille(500) {
				cur = randBox(r, sw, sh)
				boxes = append(boxes, cur)
				v.SetBox(cur)
				settled = len(boxes) - 1
				r.S.Fired("resize")
				scr.Clear()
			}
			v.FlushTo(scr)
			scr.Show()
			for y := cur.StartRow; y < cur.StartRow+cur.Rows && cur.Cols > 0; y++ {
				if x := cur.StartCol + cur.Cols; x < scr.vw && scr.At(x, y) == 0 {
					r.Fail("P10", "wide-spill", "the wide character %q at column %d, row %d reaches out of the prompt's area %+v", scr.At(x-1, y), x-1, y, cur)
				}
			}
			if wk.Permille(300) {
				dsim.Sleep(ms(wk.Intn(6)))
			}
		}
		drawing = false
		ev.Wake()
	})
	r.Nontriv = n > 5 && m > 2
	for writing || drawing {
		ev.Wait(0)
	}
	cancel()
	dsim.Sleep(2 * time.Second)
	if l := others(r, "main"); len(l) > 0 {
		r.Fail("P11", "left-running", "still there after the end: %v", l)
	}
	r.Probe("load-drawn")
}
