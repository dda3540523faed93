package h

import (
	"context"
	"errors"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/c-bata/go-prompt"
	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"
	"sigs.k8s.io/instrumentation-tools/cmd/metrics"
	"sigs.k8s.io/instrumentation-tools/promq/autocomplete"
	"sigs.k8s.io/instrumentation-tools/promq/autocomplete/earley"
	"sigs.k8s.io/instrumentation-tools/promq/prom"
	"verif.local/sim/dsim"
)

// Scenario "complete": a user edits one line for a long time and completions
// are asked for after every edit, while scrapes extend the index.

func init() {
	register(&Scenario{Name: "complete", Conf: func(r *R) { r.S.Cfg.Horizon = time.Hour }, Main: completeMain, Post: completePost, Crash: ""})
}

type completeWorld struct {
	finished bool
	doing    string
	lower    map[string]map[string]map[string]bool // what completed scrapes put into the index
	upper    map[string]map[string]map[string]bool // and those under way
	started  int
	ended    int
}

func completePost(r *R, end string) {
	w, _ := r.Ctx.(*completeWorld)
	if w != nil && !w.finished && len(r.Fails) == 0 && end != "violation" {
		r.Fails = append(r.Fails, Failure{r.Prop, "stuck:" + w.doing, fmt.Sprintf("%s did not finish (%s); still waiting: %v", w.doing, end, r.S.AtEnd)})
	}
}

// recorder notes the kinds of what was suggested.
type recorder struct {
	autocomplete.PromQLCompleter
	last []autocomplete.Match
}

func (c *recorder) GenerateSuggestions(q string, pos int) []autocomplete.Match {
	c.last = c.PromQLCompleter.GenerateSuggestions(q, pos)
	return c.last
}

type memSource struct {
	f func(ctx context.Context, now time.Time) ([]prom.ParsedSeries, error)
}

func (s memSource) ScrapePrometheusEndpoint(ctx context.Context, now time.Time) ([]prom.ParsedSeries, error) {
	return s.f(ctx, now)
}

const seps = " []{}()+-*/%^=!><~,"

var compMetrics = []string{"up", "requests_total", "request_seconds", "req", "mem_bytes", "mem", "job:mem:sum", "sum_things", "rate_limit", "by_zone", "x", "m1", "m10", "and_more"}
var compLabels = []string{"job", "jobs", "code", "path", "le", "zone", "instance", "a", "handler"}
var compVals = []string{"x", "xy", "y", "200", "500", "503", "+Inf", "api", "api2", "ünï", "日本", "a.b"}

var (
	ctxStart  = regexp.MustCompile(`^ *$`)
	ctxAggr   = regexp.MustCompile(`^ *(?:sum|max|min|avg|count) *\( *$`)
	ctxBinary = regexp.MustCompile(`^ *(?:NAME|[0-9]+) *[-+*/%] *$`)
	ctxLabel  = regexp.MustCompile(`^ *(?:(?:sum|max|min|avg|count) *\( *|(?:NAME|[0-9]+) *[-+*/%] *)?(NAME) *\{ *(?:LBL *(?:=|!=|=~|!~) *"[^"\\ ]*" *, *){0,3}$`)
	ctxValue  = regexp.MustCompile(`^ *(?:(?:sum|max|min|avg|count) *\( *|(?:NAME|[0-9]+) *[-+*/%] *)?(NAME) *\{ *(?:LBL *(?:=|!=|=~|!~) *"[^"\\ ]*" *, *){0,3}(LBL) *(?:=|!=|=~|!~) *$`)
	ctxBy     = regexp.MustCompile(`^ *(?:sum|max|min|avg|count) *\( *(NAME) *\) *(?:by|without) *\( *(?:LBL *, *){0,3}$`)
)

func init() {
	fill := func(re **regexp.Regexp) {
		s := strings.ReplaceAll((*re).String(), "NAME", strings.Join(compMetrics, "|"))
		s = strings.ReplaceAll(s, "LBL", "(?:"+strings.Join(compLabels, "|")+")")
		// the names are alternatives of one group
		*re = regexp.MustCompile(s)
	}
	for _, p := range []**regexp.Regexp{&ctxBinary, &ctxLabel, &ctxValue, &ctxBy} {
		fill(p)
	}
}

type expectation struct {
	kind   string // "metrics", "labels", "values"
	metric string
	label  string
}

// contextOf recognises what is to be completed after head, in the plain cases.
func contextOf(head string) *expectation {
	switch {
	case ctxStart.MatchString(head), ctxAggr.MatchString(head), ctxBinary.MatchString(head):
		return &expectation{kind: "metrics"}
	}
	if m := ctxLabel.FindStringSubmatch(head); m != nil {
		return &expectation{kind: "labels", metric: m[1]}
	}
	if m := ctxBy.FindStringSubmatch(head); m != nil {
		return &expectation{kind: "labels", metric: m[1]}
	}
	if m := ctxValue.FindStringSubmatch(head); m != nil {
		return &expectation{kind: "values", metric: m[1], label: m[2]}
	}
	return nil
}

func (x *expectation) set(ix map[string]map[string]map[string]bool, prefix string) map[string]bool {
	out := map[string]bool{}
	add := func(s string) {
		if strings.HasPrefix(s, prefix) {
			out[s] = true
		}
	}
	switch x.kind {
	case "metrics":
		for m := range ix {
			add(m)
		}
	case "labels":
		for l := range ix[x.metric] {
			add(l)
		}
	case "values":
		for v := range ix[x.metric][x.label] {
			add(strconv.Quote(v))
		}
	}
	return out
}

func copyIndex(a map[string]map[string]map[string]bool) map[string]map[string]map[string]bool {
	b := map[string]map[string]map[string]bool{}
	for m, ls := range a {
		b[m] = map[string]map[string]bool{}
		for l, vs := range ls {
			b[m][l] = map[string]bool{}
			for v := range vs {
				b[m][l][v] = true
			}
		}
	}
	return b
}

func addIndex(ix map[string]map[string]map[string]bool, l labels.Labels) {
	m := l.Get(labels.MetricName)
	if ix[m] == nil {
		ix[m] = map[string]map[string]bool{}
	}
	for _, p := range l {
		if p.Name == labels.MetricName {
			continue
		}
		if ix[m][p.Name] == nil {
			ix[m][p.Name] = map[string]bool{}
		}
		ix[m][p.Name][p.Value] = true
	}
}

func sugKey(s []prompt.Suggest) []string {
	var out []string
	for _, x := range s {
		out = append(out, x.Text+"\x00"+x.Description)
	}
	sort.Strings(out)
	return out
}

// query draws a text a user might enter, in pieces.
func (w *completeWorld) query(wk *dsim.Stream) []string {
	var out []string
	p := func(s ...string) { out = append(out, s...) }
	last, lastL := "", ""
	// mostly what the index has
	name := func() string {
		last = compMetrics[wk.Intn(len(compMetrics))]
		if ms := sortedKeys(w.lower); len(ms) > 0 && wk.Permille(750) {
			last = ms[wk.Intn(len(ms))]
		}
		return last
	}
	lbl := func() string {
		lastL = compLabels[wk.Intn(len(compLabels))]
		if ls := sortedKeys(w.lower[last]); len(ls) > 0 && wk.Permille(750) {
			lastL = ls[wk.Intn(len(ls))]
		}
		return lastL
	}
	val := func() string {
		if vs := sortedKeys(w.lower[last][lastL]); len(vs) > 0 && wk.Permille(750) {
			return strconv.Quote(vs[wk.Intn(len(vs))])
		}
		return strconv.Quote(compVals[wk.Intn(len(compVals))])
	}
	op := func() string { return []string{"=", "!=", "=~", "!~"}[wk.Weighted(5, 1, 2, 1)] }
	selector := func() {
		p(name())
		if wk.Permille(550) {
			p("{")
			for i, n := 0, wk.Range(1, 3); i < n; i++ {
				if i > 0 {
					p(",")
				}
				p(lbl(), op(), val())
			}
			p("}")
		}
	}
	dur := func() string { return []string{"5m", "30s", "1h", "10"}[wk.Intn(4)] }
	var expr func(d int)
	expr = func(d int) {
		switch wk.Weighted(6, 4, 3, 3, 2, 1, 1, 1) {
		case 0:
			selector()
		case 1:
			p([]string{"sum", "max", "avg", "count", "min"}[wk.Intn(5)])
			if wk.Permille(300) {
				p("(")
				selector()
				p(")", []string{" by ", " without "}[wk.Intn(2)], "(", lbl())
				if wk.Permille(400) {
					p(",", lbl())
				}
				p(")")
			} else if wk.Permille(300) {
				p(" by ", "(", lbl(), ")", "(")
				selector()
				p(")")
			} else {
				p("(")
				if d > 0 {
					expr(d - 1)
				} else {
					selector()
				}
				p(")")
			}
		case 2:
			p([]string{"rate", "increase", "max_over_time", "delta"}[wk.Intn(4)], "(")
			selector()
			p("[", dur(), "]", ")")
		case 3:
			if d > 0 {
				expr(d - 1)
			} else {
				selector()
			}
			p([]string{" + ", " - ", "*", " / ", " > ", " == ", " and ", " or ", " unless ", " >= bool ", " * on (job) ", " % "}[wk.Intn(12)])
			if d > 0 {
				expr(d - 1)
			} else {
				selector()
			}
		case 4:
			selector()
			p("[", dur(), "]")
			if wk.Permille(500) {
				p(" offset ", dur())
			}
		case 5:
			p("-")
			selector()
		case 6:
			p("(")
			if d > 0 {
				expr(d - 1)
			} else {
				selector()
			}
			p(")")
		case 7:
			selector()
			p("[", dur(), ":", dur(), "]")
		}
	}
	expr(wk.Intn(3))
	return out
}

func completeMain(r *R) {
	w := &completeWorld{lower: map[string]map[string]map[string]bool{}, upper: map[string]map[string]map[string]bool{}, doing: "start"}
	r.Ctx = w
	wk, f := r.W, r.F

	var pending []prom.ParsedSeries
	failing := false
	src := memSource{func(ctx context.Context, now time.Time) ([]prom.ParsedSeries, error) {
		if failing {
			r.S.Fired("scrape-fails")
			return nil, errors.New("no answer")
		}
		for _, x := range pending {
			addIndex(w.upper, x.Labels)
		}
		return pending, nil
	}}
	pd := prom.NewPeriodicData(src, prom.DefaultEngineOptions(time.Minute, 1000))
	round := func() {
		pending = nil
		failing = f.Permille(150)
		at := dsim.Now().UnixMilli()
		for n := wk.Range(1, 6); n > 0; n-- {
			m := map[string]string{labels.MetricName: compMetrics[wk.Intn(len(compMetrics))]}
			for k := wk.Intn(4); k > 0; k-- {
				m[compLabels[wk.Intn(len(compLabels))]] = compVals[wk.Intn(len(compVals))]
			}
			pending = append(pending, prom.ParsedSeries{Labels: labels.FromMap(m), Value: float64(n), Timestamp: at + int64(n)})
		}
		w.started++
		err := pd.Scrape(context.Background())
		if err == nil {
			for _, x := range pending {
				addIndex(w.lower, x.Labels)
			}
		}
		w.ended++
	}
	pd.Callback = func(res *promql.Result) error { return res.Err }
	pd.Times = prom.Range{Window: time.Minute, Interval: time.Second, Instant: true}
	pd.SetQuery(context.Background(), "vector(1)")
	w.doing = "first scrape"
	if wk.Permille(850) {
		round()
		if wk.Permille(600) {
			round()
		}
	}
	stopScrapes := false
	if wk.Permille(600) {
		period := []time.Duration{ms(20), ms(200), time.Second, 5 * time.Second}[f.Intn(4)]
		dsim.GoDaemon("scrapes", func() {
			for !stopScrapes {
				dsim.Sleep(period)
				round()
			}
		})
	}
	rec := &recorder{PromQLCompleter: earley.NewPromQLCompleter(pd.GetIndex())}
	comp := metrics.NewCompleter(rec)
	fresh := func(d prompt.Document) (out []prompt.Suggest) {
		dsim.Fresh(func(p string) bool { return strings.Contains(p, "/autocomplete") }, func() {
			out = metrics.NewCompleter(earley.NewPromQLCompleter(pd.GetIndex())).Complete(d)
		})
		return out
	}
	buf := prompt.NewBuffer()
	steps := wk.Range(3, []int{8, 25, 70}[wk.Intn(3)])
	if r.Deep {
		steps *= 2
	}
	odd := []string{"\"", "'", "`", "é", "日", "🙂", "\\", "{", "}", "(", ")", ",", "#", "@", "$", ":", ".", "[", "]", "\t", "~", "!", "=", "\u0301", "\n", "\x00"}
	var todo []string
	think := []time.Duration{0, ms(30), ms(400)}[f.Intn(3)]
	ask := func() bool {
		dsim.Sleep(1)
		d := *buf.Document()
		text := d.Text
		before := d.TextBeforeCursor()
		w.doing = "completion"
		r.S.Note("ask", text, before)
		s0, e0 := w.started, w.ended
		lower := copyIndex(w.lower)
		rec.last = nil
		got := comp.Complete(d)
		kinds := rec.last
		upper := copyIndex(w.upper)
		r.S.Note("complete", text, len(before), len(got))
		w.doing = "fresh completion"
		want := fresh(d)
		w.doing = "check"
		where := fmt.Sprintf("%q with the cursor after %q", text, before)
		if w.started == s0 && w.ended == e0 && s0 == e0 {
			a, b := sugKey(got), sugKey(want)
			if strings.Join(a, "\x01") != strings.Join(b, "\x01") {
				r.Fail("P07", "history", "for %s the session suggests %s, a fresh one %s", where, brief(a), brief(b))
				return false
			}
		} else {
			r.Probe("complete:scrape-meanwhile")
		}
		// the word at the cursor
		i := strings.LastIndexAny(before, seps)
		head, prefix := before[:i+1], before[i+1:]
		x := contextOf(head)
		gotSet, twice := map[string]bool{}, map[string]bool{}
		for _, k := range kinds {
			gotSet[k.GetValue()] = true
			if is := k.GetKind() + " " + k.GetValue(); twice[is] {
				r.Fail("P07", "twice", "for %s the %s is suggested twice", where, is)
				return false
			} else {
				twice[is] = true
			}
			v := k.GetValue()
			if !strings.HasPrefix(k.GetKind(), "metric-") {
				// time units follow the number at the cursor
				if k.GetKind() != "time-unit" && !strings.HasPrefix(v, prefix) {
					r.Fail("P07", "prefix", "for %s the %s %q is suggested, which does not continue %q", where, k.GetKind(), v, prefix)
					return false
				}
				continue
			}
			if !strings.HasPrefix(v, prefix) {
				r.Fail("P07", "prefix", "for %s %q is suggested, which does not continue %q", where, v, prefix)
				return false
			}
			known := upper[v] != nil
			for _, ls := range upper {
				if ls[v] != nil {
					known = true
				}
				for _, vs := range ls {
					for q := range vs {
						if strconv.Quote(q) == v {
							known = true
						}
					}
				}
			}
			if !known {
				r.Fail("P07", "unknown", "for %s %q is suggested, which the index does not have", where, v)
				return false
			}
			if x != nil && !x.set(upper, prefix)[v] {
				r.Fail("P07", "context", "for %s %q is suggested, which is none of the %s of %s", where, v, x.kind, x.metric+" "+x.label)
				return false
			}
		}
		if x != nil && before != "" {
			r.Probe("complete:" + x.kind)
			exp := x.set(lower, prefix)
			if len(exp) > 0 {
				r.Nontriv = true
				r.Probe("complete:expected-" + x.kind)
			}
			for v := range exp {
				if !gotSet[v] {
					r.Fail("P07", "missing", "for %s the %s %q of %s is not suggested", where, x.kind, v, x.metric+" "+x.label)
					return false
				}
			}
		}
		return true
	}
	for i := 0; i < steps; i++ {
		switch wk.Weighted(10, 4, 3, 2, 2, 2, 2, 1, 1) {
		case 0: // type on
			if len(todo) == 0 {
				todo = w.query(wk)
			}
			n := 1
			if wk.Permille(200) {
				n = wk.Range(1, len(todo))
			}
			for ; n > 0 && len(todo) > 0; n-- {
				t := todo[0]
				todo = todo[1:]
				if rs := []rune(t); len(rs) > 1 && wk.Permille(400) {
					k := wk.Range(1, len(rs)-1)
					buf.InsertText(string(rs[:k]), false, true)
					if !ask() {
						return
					}
					buf.InsertText(string(rs[k:]), false, true)
				} else {
					buf.InsertText(t, false, true)
				}
			}
		case 1: // delete
			buf.DeleteBeforeCursor(1 + wk.Intn([]int{1, 3, 12}[wk.Intn(3)]))
		case 2: // jump
			n := wk.Range(1, 10)
			if wk.Permille(500) {
				buf.CursorLeft(n)
			} else {
				// beyond the end go-prompt counts bytes
				d := buf.Document()
				if rest := len([]rune(d.TextAfterCursor())); n > rest {
					n = rest
				}
				buf.CursorRight(n)
			}
		case 3: // to an end
			if wk.Permille(600) {
				d := buf.Document()
				buf.CursorRight(len([]rune(d.TextAfterCursor())))
			} else {
				buf.CursorLeft(1000)
			}
		case 4: // another line (history, submit)
			buf = prompt.NewBuffer()
			todo = nil
			q := w.query(wk)
			k := wk.Range(0, len(q))
			buf.InsertText(strings.Join(q[:k], ""), false, true)
			todo = q[k:]
		case 5: // something odd
			buf.InsertText(odd[wk.Intn(len(odd))], false, true)
		case 6: // a space
			buf.InsertText([]string{" ", "  "}[wk.Intn(2)], false, true)
		case 7: // delete the rest
			d := buf.Document()
			if n := len([]rune(d.TextAfterCursor())); n > 0 {
				buf.Delete(wk.Range(1, n))
			}
		case 8: // replace a word
			d := buf.Document()
			n := len([]rune(d.GetWordBeforeCursorUntilSeparator(seps)))
			if n > 0 {
				buf.DeleteBeforeCursor(n)
			}
			buf.InsertText(compMetrics[wk.Intn(len(compMetrics))], false, true)
		}
		if len(buf.Document().Text) > 100 {
			buf = prompt.NewBuffer()
			todo = nil
		}
		if !ask() {
			return
		}
		if think > 0 {
			w.doing = "pause"
			dsim.Sleep(time.Duration(wk.Intn(int(think))))
		}
	}
	stopScrapes = true
	w.finished = true
}

func brief(s []string) string {
	var out []string
	for _, x := range s {
		out = append(out, strings.SplitN(x, "\x00", 2)[0])
	}
	return trunc(fmt.Sprintf("%d %q", len(out), out), 400)
}
