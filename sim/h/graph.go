package h

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/gdamore/tcell"
	"sigs.k8s.io/instrumentation-tools/promq/term"
	"sigs.k8s.io/instrumentation-tools/promq/term/plot"
)

// Reading a drawn graph back from the screen (P16): the axes are found by
// their corner, the labels by what the labelers were asked, the samples by
// their dots.

// labelBook remembers which values a labeler was asked about.
type labelBook struct {
	rng map[string][]float64
	dom map[string][]int64
	max [2]int // longest range and domain label
}

func (b *labelBook) reset() {
	b.rng, b.dom, b.max = map[string][]float64{}, map[string][]int64{}, [2]int{}
}

func (b *labelBook) rangeLabel(v float64) string {
	s := fmt.Sprintf("%5.5g", v)
	b.rng[strings.TrimSpace(s)] = append(b.rng[strings.TrimSpace(s)], v)
	b.max[0] = max(b.max[0], len(s))
	return s
}

func (b *labelBook) domainLabel(f plot.DomainLabeler) plot.DomainLabeler {
	return func(v int64) string {
		s := f(v)
		b.dom[s] = append(b.dom[s], v)
		b.max[1] = max(b.max[1], len(s))
		return s
	}
}

// axesOf are the axes a graph of the series has, given the ranges to keep.
func axesOf(set plot.SeriesSet, base plot.PlatonicAxes) plot.PlatonicAxes {
	for _, s := range set {
		for _, p := range s.Points() {
			base.DomainMin = min64(base.DomainMin, p.X())
			base.DomainMax = max64(base.DomainMax, p.X())
			if v := p.Y(); !math.IsNaN(v) && !math.IsInf(v, 0) {
				base.RangeMin = math.Min(base.RangeMin, v)
				base.RangeMax = math.Max(base.RangeMax, v)
			}
		}
	}
	return base
}

func min64(a, b int64) int64 {
	if b < a {
		return b
	}
	return a
}

func max64(a, b int64) int64 {
	if b > a {
		return b
	}
	return a
}

var dotBits = [2][4]rune{{1 << 0, 1 << 1, 1 << 2, 1 << 6}, {1 << 3, 1 << 4, 1 << 5, 1 << 7}}

// dot is the place of a sample, counted from the lower left corner.
type dot struct{ x, y float64 }

// judgeGraph compares what a freshly cleared area shows with the data.
func (r *R) judgeGraph(scr *Screen, box term.PositionBox, set plot.SeriesSet, axes plot.PlatonicAxes, book *labelBook, name string) {
	at := func(x, y int) cell { return scr.vis[(box.StartRow+y)*scr.vw+box.StartCol+x] }
	fail := func(rule, f string, args ...any) {
		r.Fail("P16", rule, "%s %+v, values %g to %g, times %d to %d: %s\n%s", name, box, axes.RangeMin, axes.RangeMax, axes.DomainMin, axes.DomainMax, fmt.Sprintf(f, args...), scr.Dump())
	}
	finite := false
	for _, s := range set {
		for _, p := range s.Points() {
			finite = finite || !math.IsNaN(p.Y()) && !math.IsInf(p.Y(), 0)
		}
	}
	cx, cy := -1, -1
	for y := 0; y < box.Rows; y++ {
		for x := 0; x < box.Cols; x++ {
			if at(x, y).ch == '┗' {
				cx, cy = x, y
			}
		}
	}
	if cx < 0 {
		if finite && box.Cols > book.max[0]+2 && box.Rows > book.max[1]+2 {
			fail("not-drawn", "there is room, but nothing is drawn")
		}
		return
	}
	cols, rows := box.Cols-cx-1, cy
	if !finite {
		return
	}
	rd, dd := axes.RangeMax-axes.RangeMin, float64(axes.DomainMax-axes.DomainMin)
	if rd == 0 {
		rd = 1
	}
	if dd == 0 {
		dd = 1
	}
	w, h := 2*cols, 4*rows
	if cols < 1 || rows < 1 || math.IsInf(rd, 0) || dd < 0 || math.IsInf(float64(h)/rd, 0) {
		r.Probe("graph-beyond-floats")
		return
	}
	// the lines of the axes
	for y := 0; y < rows; y++ {
		if c := at(cx, y).ch; c != '┃' && c != '┨' {
			fail("axis-broken", "the value axis shows %q in row %d", c, y)
			return
		}
	}
	for x := cx + 1; x < box.Cols; x++ {
		if c := at(x, cy).ch; c != '━' && c != '┯' {
			fail("axis-broken", "the time axis shows %q in column %d", c, x)
			return
		}
	}
	// labels of values
	lowest, highest := math.Inf(1), math.Inf(-1)
	for y := 0; y < rows; y++ {
		text := strings.TrimSpace(scr.span(box.StartCol, box.StartRow+y, cx))
		if at(cx, y).ch != '┨' {
			if text != "" {
				fail("stray-label", "row %d has the label %q but no tick", y, text)
			}
			continue
		}
		best := math.Inf(1)
		vals, known := book.rng[text]
		for _, v := range vals {
			best = math.Min(best, math.Abs(float64(rows-1)*(1-(v-axes.RangeMin)/rd)-float64(y)))
		}
		if best > 1 && overprinted(text, book, func(v float64) float64 {
			return math.Abs(float64(rows-1)*(1-(v-axes.RangeMin)/rd) - float64(y))
		}) {
			fail("value-labels-overprinted", "row %d shows %q, several labels one over the other", y, text)
		} else if !known {
			fail("label-wrong", "row %d has the label %q, which no value has", y, text)
		} else if best > 1 {
			fail("label-misplaced", "the label %q in row %d is %.1f rows from the place of its value", text, y, best)
		}
		lowest, highest = math.Min(lowest, float64(rows-1-y)), math.Max(highest, float64(rows-1-y))
	}
	if lowest == 0 && highest == 0 && rows > 2 && axes.RangeMax > axes.RangeMin {
		fail("value-labels-missing", "the value axis has a label only for the lowest value")
	} else if lowest > 1 || highest < float64(rows-2) && axes.RangeMax > axes.RangeMin {
		fail("labels-missing", "the value axis has labels only from row %v to row %v of %d", lowest, highest, rows)
	}
	// labels of times
	left, right := box.Cols, -1
	for x := 0; x < box.Cols; x++ {
		text := ""
		for y := cy + 1; y < box.Rows; y++ {
			if c := at(x, y).ch; c != 0 {
				text += string(c)
			}
		}
		text = strings.TrimSpace(text)
		if x < cx || x > cx && at(x, cy).ch != '┯' {
			if text != "" {
				fail("stray-label", "column %d has the label %q but no tick", x, text)
			}
			continue
		}
		if x == cx && text == "" {
			continue
		}
		best := math.Inf(1)
		vals, known := book.dom[text]
		for _, v := range vals {
			best = math.Min(best, math.Abs(float64(cx+1)+float64(cols-1)*float64(v-axes.DomainMin)/dd-float64(x)))
		}
		if !known {
			fail("label-wrong", "column %d has the label %q, which no time has", x, text)
		} else if best > 2 {
			fail("label-misplaced", "the label %q in column %d is %.1f columns from the place of its time", text, x, best)
		}
		left, right = min(left, x), max(right, x)
	}
	if _, empty := book.dom[""]; !empty && (left > cx+2 || axes.DomainMax > axes.DomainMin && right < box.Cols-3) {
		fail("labels-missing", "the time axis has labels only from column %d to column %d of %d", left, right, box.Cols)
	}
	// the plot
	lit := make([]bool, w*h)
	for y := 0; y < rows; y++ {
		for x := 0; x < cols; x++ {
			c := at(cx+1+x, y).ch
			if c == ' ' || c == 0 {
				continue
			}
			if c < 0x2800 || c > 0x28ff {
				fail("stray-text", "the plot shows %q at column %d, row %d", c, cx+1+x, y)
				return
			}
			for i := range dotBits {
				for j, b := range dotBits[i] {
					if (c-0x2800)&b != 0 {
						lit[(h-1-(4*y+j))*w+2*x+i] = true
					}
				}
			}
		}
	}
	on := func(x, lo, hi int) bool {
		for dx := x - 1; dx <= x+1; dx++ {
			for y := lo; y <= hi; y++ {
				if dx >= 0 && y >= 0 && dx < w && y < h && lit[y*w+dx] {
					return true
				}
			}
		}
		return false
	}
	inCol := func(x, lo, hi int) bool {
		for y := lo; y <= hi; y++ {
			if y >= 0 && y < h && lit[y*w+x] {
				return true
			}
		}
		return false
	}
	due := make([]bool, w*h)              // explained by the data
	ids := map[int]map[tcell.Color]bool{} // colours a cell may have
	for si, s := range set {
		type col struct {
			x       int
			y       float64 // where it is drawn, if sure
			lo, hi  float64
			n       int
			precise bool
		}
		var cs []col
		for _, p := range s.Points() {
			if math.IsNaN(p.Y()) || math.IsInf(p.Y(), 0) {
				continue
			}
			fx := float64(p.X()-axes.DomainMin) / dd * float64(w-1)
			fy := (p.Y() - axes.RangeMin) / rd * float64(h-1)
			x := int(math.Round(fx))
			sure := math.Abs(fx-math.Floor(fx)-0.5) > 1e-6
			if len(cs) > 0 && cs[len(cs)-1].x == x {
				c := &cs[len(cs)-1]
				c.y += fy
				c.n++
				c.lo, c.hi = math.Min(c.lo, fy), math.Max(c.hi, fy)
				c.precise = c.precise && sure
			} else {
				cs = append(cs, col{x, fy, fy, fy, 1, sure})
			}
		}
		orig := append([]col(nil), cs...)
		for i := range cs {
			cs[i].y /= float64(cs[i].n)
			// a sample at the edge of two columns may be counted with either
			for _, k := range []int{i - 1, i + 1} {
				if k >= 0 && k < len(cs) && !(orig[i].precise && orig[k].precise) {
					cs[i].lo, cs[i].hi = math.Min(cs[i].lo, orig[k].lo), math.Max(cs[i].hi, orig[k].hi)
				}
			}
		}
		sure := func(i int) bool {
			return cs[i].precise && (i == 0 || cs[i-1].precise) && (i+1 == len(cs) || cs[i+1].precise)
		}
		mark := func(x0, x1 int, lo, hi float64) {
			for x := x0 - 1; x <= x1+1; x++ {
				for y := int(math.Floor(lo)) - 1; y <= int(math.Ceil(hi))+1; y++ {
					if x >= 0 && y >= 0 && x < w && y < h {
						due[y*w+x] = true
						k := (h-1-y)/4*cols + x/2
						if ids[k] == nil {
							ids[k] = map[tcell.Color]bool{}
						}
						ids[k][tcell.Color(s.Id()%256)] = true
					}
				}
			}
		}
		for i, c := range cs {
			lo, hi := int(math.Floor(c.lo))-1, int(math.Ceil(c.hi))+1
			if sure(i) {
				lo, hi = int(math.Floor(c.y))-1, int(math.Ceil(c.y))+1
			}
			if !on(c.x, lo, hi) {
				fail("sample-missing", "series %d (%d): no dot for the %d samples in dot column %d, height %.1f to %.1f", si, s.Id(), c.n, c.x, c.lo, c.hi)
				return
			}
			mark(c.x, c.x, c.lo, c.hi)
			if i == 0 {
				continue
			}
			a := cs[i-1]
			if !sure(i-1) || !sure(i) {
				mark(a.x, c.x, math.Min(a.lo, c.lo), math.Max(a.hi, c.hi))
				continue
			}
			// the line between them
			// as the rows are averages, a short line may fall a little more
			falls := c.y < a.y-1 || c.y < a.y+2 && c.x-a.x <= 2
			if falls {
				mark(a.x, c.x, math.Min(a.y, c.y), math.Max(a.y, c.y))
			}
			n := 0.0
			if math.Abs(c.y-a.y) > float64(c.x-a.x)+2 {
				y0, y1, x0, x1 := a.y, c.y, float64(a.x), float64(c.x)
				if y0 > y1 {
					y0, y1, x0, x1 = y1, y0, x1, x0
				}
				for y := math.Ceil(y0) + 1; y < y1-1; y++ {
					x := x0 + (x1-x0)*(y-y0)/(y1-y0)
					if !on(int(math.Round(x)), int(y), int(y)) {
						n++
					}
					mark(int(math.Floor(x)), int(math.Ceil(x)), y, y)
				}
			} else {
				for x := a.x + 1; x < c.x; x++ {
					y := a.y + (c.y-a.y)*float64(x-a.x)/float64(c.x-a.x)
					if !inCol(x, int(math.Floor(y))-1, int(math.Ceil(y))+1) {
						n++
					}
					mark(x, x, y, y)
				}
			}
			if n > 0 && falls {
				fail("falling-line-broken", "series %d (%d): the line from dot %d,%.1f to dot %d,%.1f misses %v dots", si, s.Id(), a.x, a.y, c.x, c.y, n)
			} else if n > 0 {
				fail("line-broken", "series %d (%d): the line from dot %d,%.1f to dot %d,%.1f misses %v dots", si, s.Id(), a.x, a.y, c.x, c.y, n)
				return
			}
		}
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			if lit[y*w+x] && !due[y*w+x] {
				fail("stray-dot", "there is a dot at dot column %d, height %d, where no series runs", x, y)
				return
			}
		}
	}
	for y := 0; y < rows; y++ {
		for x := 0; x < cols; x++ {
			c := at(cx+1+x, y)
			if c.ch <= 0x2800 || c.ch > 0x28ff {
				continue
			}
			fg, _, _ := c.style.Decompose()
			if ok := ids[y*cols+x]; !ok[fg] {
				var want []int
				for k := range ok {
					want = append(want, int(k))
				}
				sort.Ints(want)
				fail("wrong-colour", "the dots at column %d, row %d have the colour %d, the series there have %v", cx+1+x, y, fg, want)
				return
			}
		}
	}
	r.Probe("graph-read-back")
}

// overprinted: the text is what is left of labels written into one row, each
// over the one before.
func overprinted(text string, book *labelBook, off func(float64) float64) bool {
	var here []string
	for l, vs := range book.rng {
		for _, v := range vs {
			if off(v) <= 1 {
				here = append(here, l)
				break
			}
		}
	}
	all := map[string]bool{}
	for _, l := range here {
		all[fmt.Sprintf("%5s", l)] = true
	}
	for i := 0; i < 3; i++ {
		for _, under := range sortedKeys(all) {
			for _, l := range here {
				top := fmt.Sprintf("%5s", l)
				if n := len(under) - len(top); n > 0 {
					all[under[:n]+top] = true
					if strings.TrimSpace(under[:n]+top) == text {
						return true
					}
				}
			}
		}
	}
	return false
}
