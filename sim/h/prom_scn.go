package h

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"
	"k8s.io/cli-runtime/pkg/genericclioptions"
	"k8s.io/client-go/rest"
	"sigs.k8s.io/instrumentation-tools/cmd/cli"
	"sigs.k8s.io/instrumentation-tools/cmd/metrics"
	"sigs.k8s.io/instrumentation-tools/notstdlib/sets"
	"sigs.k8s.io/instrumentation-tools/promq/prom"
	"verif.local/sim/dsim"
)

// Scenario "prom": several targets, concurrent scrapers, query changes, index
// readers, clock jumps, cancellations and network faults against the real
// source, storage, index, engine glue.

func init() {
	register(&Scenario{Name: "prom", Conf: promConf, Main: promMain, Post: promPost})
}

// Round is one Scrape call.
type Round struct {
	id        int
	inv, resp int // op sequence numbers
	start     time.Duration
	end       time.Duration
	wallLo    time.Time // earliest/latest wall clock reading while it ran
	wallHi    time.Time
	err       error
	done      bool
	cancelled bool
	cancelAt  time.Duration
	reqs      []*Req
	cbs       []*cbRec
	jumps     int // clock jumps and stalls that overlapped
	loaded    int // 1 yes, 0 no, -1 unknown
	want      int // target count
	g         int // goroutine
	added     bool
}

type cbRec struct {
	seq          int
	enter        time.Time // wall
	exit         int
	res          *Res
	round        *Round
	failed       bool
	epoch        int
	loadedBefore int
	pos          int
}

type setq struct {
	q         string
	inv, resp int
	ok        bool
	bad       bool
}

type promWorld struct {
	r            *R
	net          *Net
	pd           *prom.PeriodicData
	opts         promql.EngineOpts
	rounds       []*Round
	cbs          []*cbRec
	qs           []*setq
	seq          int
	epoch        int
	inCB         int
	exact        bool
	instant      bool
	window, step time.Duration
	cbFail       int
	cbSlow       int
	finished     bool
	stage        string
	idx          prom.Indexer
	final        *Res
	finalIdx     map[string]map[string]map[string]bool
	active       []*Round
	workers      int
	doneEv       dsim.Event
	lastLoaded   []*Round
}

func (w *promWorld) next() int { w.seq++; return w.seq }

func promConf(r *R) {
	if r.F.Permille(250) {
		r.Stalls(4, ms(400))
	}
	r.S.Cfg.Horizon = 2 * time.Hour
}

// captureSource runs the real command far enough to obtain the data source it
// builds for the given targets.
func captureSource(r *R, net *Net) prom.DataSource {
	var src prom.DataSource
	observer = func(what string, v ...any) {
		if what == "prom.NewPeriodicData:call" {
			for _, x := range v {
				if s, ok := x.(prom.DataSource); ok {
					src = s
				}
			}
			observer = nil
			dsim.Quit()
		}
	}
	off, md := net.Off, net.MinDelay
	net.Off, net.MinDelay = true, 0
	var ev dsim.Event
	done := false
	var rerr error
	dsim.Go("capture", func() {
		defer func() { done = true; ev.Wake() }()
		c := &metrics.MetricsCommand{PromQCommand: cli.PromQCommand{RestConfig: &rest.Config{Host: "http://kube.sim", Transport: net}, Streams: genericclioptions.IOStreams{Out: &simOut{r: r, FailAt: -1}}}, Period: time.Second, Window: time.Minute}
		rerr = c.Run(cli.PromQFlags{HostNames: net.URLs(), Output: "json", PromQuery: "up"})
	})
	for !done {
		ev.Wait(time.Minute)
		if !done {
			break
		}
	}
	observer = nil
	net.Off, net.MinDelay = off, md
	net.Reqs = nil
	for _, t := range net.T {
		t.Serves = 0
	}
	if src == nil {
		r.Fail(r.Prop, "no-source", "the command did not get as far as its periodic data: %v", rerr)
	}
	return src
}

func queryPool(r *R, net *Net, instant bool) string {
	w := r.W
	pick := func() string {
		if w.Permille(150) {
			return sentinel
		}
		t := net.T[w.Intn(len(net.T))]
		if len(t.Series) == 0 {
			return sentinel
		}
		return t.Series[w.Intn(len(t.Series))].name
	}
	matcher := func() string {
		l := append([]string{"instance", "t"}, lblPool...)[w.Intn(len(lblPool)+2)]
		op := []string{"=", "!=", "=~", "!~"}[w.Intn(4)]
		var v string
		switch {
		case op == "=~" || op == "!~":
			v = []string{".*", ".+", "", "x|y", "2..", "http://t0.*", "api.*|", "[xy]"}[w.Intn(8)]
		default:
			v = append([]string{net.T[0].URL}, valPool...)[w.Intn(len(valPool)+1)]
		}
		return l + op + "\"" + escapeVal(v) + "\""
	}
	sel := func() string {
		n := pick()
		k := w.Weighted(5, 4, 2)
		if k == 0 {
			return n
		}
		var ms []string
		for i := 0; i < k; i++ {
			ms = append(ms, matcher())
		}
		if w.Permille(150) {
			return `{__name__=~"` + []string{".+", "a.*", n + "|up", ".*_total"}[w.Intn(4)] + `",` + strings.Join(ms, ",") + "}"
		}
		return n + "{" + strings.Join(ms, ",") + "}"
	}
	rng := func() string { return []string{"5s", "30s", "2m", "10m"}[w.Intn(4)] }
	if net.Collides { // the query engine itself mixes such series up elsewhere
		return []string{sel(), sel(), "count_over_time(" + sel() + "[" + rng() + "])", `{__name__=~"..*"}`, sel() + " offset " + rng()}[w.Intn(5)]
	}
	switch w.Weighted(6, 2, 2, 2, 2, 2, 1, 1, 1, 2, 1, 1, 2, 1) {
	case 0:
		return sel()
	case 1:
		return "sum by (job) (" + sel() + ")"
	case 2:
		return []string{"count_over_time", "max_over_time", "min_over_time", "last_over_time", "sum_over_time", "present_over_time"}[w.Intn(6)] + "(" + sel() + "[" + rng() + "])"
	case 3:
		return []string{"rate", "increase", "delta", "irate", "changes"}[w.Intn(5)] + "(" + sel() + "[" + rng() + "])"
	case 4:
		return sel() + " offset " + rng()
	case 5:
		return "count(" + sel() + ")"
	case 6:
		return sel() + " + on(instance) group_left " + sentinel
	case 7:
		return "max_over_time(" + sel() + "[" + rng() + ":5s])"
	case 8:
		return fmt.Sprintf("%d + 2 * scalar(%s)", w.Intn(9), sel())
	case 9:
		return `{__name__=~"..*"}`
	case 10:
		return "absent(" + sel() + ")"
	}
	switch w.Intn(3) {
	case 0: // valid, but may fail on the data
		switch w.Intn(4) {
		case 0:
			return sel() + " * on(instance) " + sel()
		case 1:
			return "label_replace(" + sel() + `, "not a name", "$1", "job", "(.*)")`
		case 2:
			return "count_values(\"not a name\", " + sel() + ")"
		}
		return sel() + " == ignoring(job) group_right(code) " + sel()
	case 1: // not about series
		return []string{`"text"`, "1+1", "time()", "vector(1)", "-" + sentinel, sentinel + "[1m]", "(" + sel() + ")"}[w.Intn(7)]
	}
	return "sum_over_time(" + sel() + "[2m:])"
}

// unexecutable: the language accepts the query but it cannot be run as asked
// (a range of ranges or of texts, or no query at all).
func (w *promWorld) unexecutable(q string) bool {
	if q == "" {
		return true
	}
	return evalRef(w.opts, newRef(nil), q, w.instant, dsim.Now(), w.window, w.step).Err && !strings.Contains(q, "not a name")
}

var badQueries = []string{"sum(", "up{", "rate(up)", "1 +", "up[5m", "{}", "foo{a=~\"(\"}", "", "sum by (x", "up offset", "\"unterminated", "up{a=b}", "rate(up[5m])[1m]"}

func (w *promWorld) callback(res *promql.Result) error {
	r := w.r
	w.inCB++
	if w.inCB > 1 {
		r.Fail("P04", "overlapping-callbacks", "%d results are being delivered at once", w.inCB)
	}
	rec := &cbRec{seq: w.next(), enter: dsim.Now(), res: canon(res), epoch: w.epoch}
	// the round this delivery belongs to: the one whose data phase is over and
	// that has not been delivered yet
	for _, rd := range w.active {
		if rd.g == dsim.Self() && len(rd.cbs) == 0 {
			rec.round = rd
		}
	}
	if rec.round == nil {
		for _, rd := range w.active {
			if len(rd.reqs) > 0 && len(rd.cbs) == 0 && (rec.round == nil || rd.reqs[len(rd.reqs)-1].Seq > rec.round.reqs[len(rec.round.reqs)-1].Seq) {
				rec.round = rd
			}
		}
	}
	w.cbs = append(w.cbs, rec)
	if rec.round != nil {
		rec.round.cbs = append(rec.round.cbs, rec)
		r.S.Note("callback", rec.round.id, rec.res.Kind, rec.res.Err)
	} else {
		r.Fail("P04", "callback-without-round", "a result was delivered although no scrape round is in progress")
	}
	if rec.round != nil {
		for _, q := range rec.round.reqs {
			if !q.Done {
				r.Fail("P04", "callback-during-fetch", "a result was delivered while a request of its round was still in flight")
			}
		}
	}
	if w.cbSlow > 0 && r.F.Permille(w.cbSlow) {
		r.S.Fired("slow-callback")
		dsim.Sleep(ms(r.F.Range(1, 300)))
	} else {
		for i := 0; i < 3; i++ {
			dsim.Y()
		}
	}
	w.inCB--
	rec.exit = w.next()
	if w.cbFail > 0 && r.F.Permille(w.cbFail) {
		r.S.Fired("callback-error")
		rec.failed = true
		return errors.New("sim: callback failed")
	}
	return res.Err
}

func (w *promWorld) scrape(ctx context.Context, rd *Round) {
	r := w.r
	rd.start = r.S.Elapsed()
	rd.g = dsim.Self()
	rd.inv = w.next()
	rd.want = len(w.net.T)
	rd.wallLo = dsim.Now()
	rd.wallHi = rd.wallLo
	w.rounds = append(w.rounds, rd)
	w.active = append(w.active, rd)
	e0 := w.epoch
	rd.err = w.pd.Scrape(context.WithValue(ctx, roundKey{}, rd))
	rd.done = true
	rd.end = r.S.Elapsed()
	rd.resp = w.next()
	rd.jumps = w.epoch - e0
	for i, a := range w.active {
		if a == rd {
			w.active = append(w.active[:i:i], w.active[i+1:]...)
			break
		}
	}
	r.S.Note("scrape-done", rd.id, rd.err == nil)
	w.judgeRound(rd)
}

func (w *promWorld) judgeRound(rd *Round) {
	r := w.r
	got := map[int]int{}
	complete := true
	bad := ""
	for _, q := range rd.reqs {
		if q.Target >= 0 {
			got[q.Target]++
		}
		if !q.Good || !q.EOF {
			complete = false
			if bad == "" {
				bad = fmt.Sprintf("target %d: %s", q.Target, q.Outcome)
			}
		}
		if q.Opened && !q.Closed {
			r.Fail("P01", "response-leak", "round %d: the response of %s (%s) was not closed", rd.id, q.URL, q.Outcome)
		}
		if !q.Done {
			r.Fail("P01", "request-outlives-round", "round %d ended while its request to %s was in flight", rd.id, q.URL)
		}
	}
	for i := 0; i < rd.want; i++ {
		if got[i] == 0 {
			complete = false
			if bad == "" {
				bad = fmt.Sprintf("target %d was never asked", i)
			}
		}
	}
	if rd.err == nil {
		if !complete {
			r.Fail("P01", "incomplete-round-accepted", "round %d succeeded although %s", rd.id, bad)
		}
		if len(rd.cbs) != 1 {
			r.Fail("P04", "callback-count", "round %d succeeded with %d results delivered instead of one", rd.id, len(rd.cbs))
		}
		rd.loaded = 1
		for _, c := range rd.cbs {
			if c.failed || c.res.Err {
				r.Fail("P04", "callback-error-swallowed", "round %d reported success although delivering its result failed (%s)", rd.id, c.res.Msg)
			}
		}
		return
	}
	if len(rd.cbs) > 1 {
		r.Fail("P04", "callback-count", "round %d delivered %d results", rd.id, len(rd.cbs))
	}
	if len(rd.cbs) == 1 {
		if !complete {
			r.Fail("P01", "callback-on-failed-round", "round %d delivered a result although %s", rd.id, bad)
		}
		c := rd.cbs[0]
		if !c.failed && !c.res.Err {
			r.Fail("P04", "delivered-round-failed", "round %d delivered its result and then reported %v", rd.id, rd.err)
		}
		if c.failed && !errors.Is(rd.err, rd.err) {
			_ = c
		}
		rd.loaded = 1
		return
	}
	// no delivery
	noquery := false
	for _, q := range w.candidates(rd.inv, rd.resp) {
		noquery = noquery || w.unexecutable(q)
	}
	for _, s := range w.qs {
		noquery = noquery || s.inv > 0 && s.resp == 0 && !s.bad && w.unexecutable(s.q)
	}
	if complete && noquery {
		r.Probe("round-without-runnable-query")
		rd.loaded = -1
		return
	}
	if complete && !rd.cancelled {
		r.Fail("P01", "healthy-round-rejected", "round %d failed although every target answered: %v", rd.id, rd.err)
	}
	rd.loaded = 0
	if complete && rd.cancelled {
		rd.loaded = -1
	}
}

func promMain(r *R) {
	w := &promWorld{r: r, stage: "setup"}
	r.Ctx = w
	wk := r.W
	net := NewNet(r)
	w.net = net
	k := wk.Range(1, 3)
	net.AddTargets(k, []int{3, 6, 12}[wk.Intn(3)], wk.Permille(300))
	if wk.Permille(60) {
		net.Collide()
	}
	net.FaultPm = []int{0, 60, 150, 350}[r.F.Intn(4)]
	for _, kd := range netKinds {
		if r.F.Permille(600) {
			net.Kinds = append(net.Kinds, kd)
		}
	}
	if len(net.Kinds) == 0 {
		net.Kinds = []string{"refused"}
	}
	net.Explicit = []int{0, 0, 150, 500}[wk.Intn(4)]
	net.Special = []int{0, 60, 300}[wk.Intn(3)]
	net.Churn = []int{0, 200, 500}[wk.Intn(3)]
	net.Delay = []int{0, 300}[r.F.Intn(2)]
	net.MinDelay = []int{0, 1, 5}[wk.Intn(3)]
	src := captureSource(r, net)
	if src == nil {
		return
	}
	net.OnReq = func(q *Req) {
		rd, _ := q.Round.(*Round)
		if rd == nil {
			if len(w.active) == 1 {
				rd = w.active[0]
			}
			q.NoCtx = true
			if len(w.active) > 0 {
				r.Fail("P03", "request-without-context", "a request does not carry the caller's context, so cancelling cannot end it")
			}
		}
		if rd != nil {
			rd.reqs = append(rd.reqs, q)
			if q.Wall.Before(rd.wallLo) {
				rd.wallLo = q.Wall
			}
			if q.Wall.After(rd.wallHi) {
				rd.wallHi = q.Wall
			}
		}
	}
	w.instant = wk.Permille(500)
	w.window = []time.Duration{time.Minute, 10 * time.Second, 5 * time.Minute}[wk.Intn(3)]
	w.step = []time.Duration{time.Second, 5 * time.Second, 250 * time.Millisecond}[wk.Intn(3)]
	w.opts = prom.DefaultEngineOptions(2*time.Minute, 500000)
	w.opts.EnableAtModifier = true
	w.opts.EnableNegativeOffset = true
	w.pd = prom.NewPeriodicData(src, w.opts)
	w.pd.Times = prom.Range{Window: w.window, Interval: w.step, Instant: w.instant}
	w.pd.Callback = w.callback
	w.idx = w.pd.GetIndex()
	w.cbFail = []int{0, 0, 100}[r.F.Intn(3)]
	w.cbSlow = []int{0, 200}[r.F.Intn(2)]
	w.exact = r.S.Cfg.StallPm == 0
	w.qs = append(w.qs, &setq{q: "", ok: true})
	if !wk.Permille(60) {
		w.setQuery(queryPool(r, net, w.instant), false)
	}
	w.stage = "run"

	nScr := wk.Range(1, 3)
	nRounds := wk.Range(2, 8)
	nSet := wk.Intn(3)
	nIdx := wk.Intn(3)
	jumper := r.F.Permille(300)
	cancels := []int{0, 0, 250}[r.F.Intn(3)]
	spread := []int{0, 50, 2500}[wk.Intn(3)]
	start := func(name string, f func()) {
		w.workers++
		dsim.Go(name, func() {
			f()
			w.workers--
			w.doneEv.Wake()
		})
	}
	for i := 0; i < nScr; i++ {
		i := i
		start(fmt.Sprintf("scraper%d", i), func() {
			for k := 0; k < nRounds; k++ {
				if spread > 0 {
					dsim.Sleep(ms(wk.Intn(spread)))
				}
				rd := &Round{id: i*100 + k}
				ctx := context.Context(context.Background())
				var cancel context.CancelFunc = func() {}
				if cancels > 0 && r.F.Permille(cancels) {
					ctx, cancel = context.WithCancel(ctx)
					d := ms(r.F.Range(1, 4000))
					if r.F.Permille(200) {
						d = 0
					}
					c := cancel
					dsim.GoDaemon("canceller", func() {
						dsim.Sleep(d)
						if !rd.done {
							r.S.Fired("cancel-scrape")
							rd.cancelled = true
							rd.cancelAt = r.S.Elapsed()
						}
						c()
					})
				}
				w.scrape(ctx, rd)
				cancel()
			}
		})
	}
	for i := 0; i < nSet; i++ {
		start(fmt.Sprintf("setter%d", i), func() {
			for k := wk.Range(1, 5); k > 0; k-- {
				dsim.Sleep(ms(wk.Intn(spread + 200)))
				if wk.Permille(300) {
					w.setQuery(badQueries[wk.Intn(len(badQueries))], true)
				} else {
					w.setQuery(queryPool(r, net, w.instant), false)
				}
			}
		})
	}
	for i := 0; i < nIdx; i++ {
		start(fmt.Sprintf("reader%d", i), func() { w.readIndex(wk.Range(1, 6), spread) })
	}
	if jumper {
		start("clock", func() {
			for k := r.F.Range(1, 4); k > 0; k-- {
				dsim.Sleep(ms(r.F.Intn(6000)))
				d := ms(r.F.Range(1, 90_000))
				if r.F.Permille(500) {
					d = -d
				}
				r.S.Fired("clock-jump")
				w.clockSeen()
				r.S.JumpWall(d)
				w.epoch++
				w.clockSeen()
			}
		})
	}
	for w.workers > 0 {
		w.doneEv.Wait(0)
	}
	r.Nontriv = len(w.rounds) > 1
	// epilogue: the world is healthy again
	w.stage = "epilogue"
	net.Off = true
	w.cbFail, w.cbSlow = 0, 0
	r.S.Cfg.StallPm = 0
	dsim.Sleep(ms(10))
	if w.unexecutable(w.candidates(w.seq+1, w.seq+1)[0]) {
		w.setQuery(sentinel, false)
	}
	rd := &Round{id: 9000}
	w.scrape(context.Background(), rd)
	if rd.err != nil && !(len(rd.cbs) == 1 && rd.cbs[0].res.Err) {
		r.Fail("P01", "no-recovery", "the first round after the faults ended failed: %v", rd.err)
	}
	w.finalIdx = w.snapshotIndex()
	// everything ever stored, whatever the clock did
	r.S.JumpWall(500 * 24 * time.Hour)
	w.pd.Times.Instant = true
	if err := w.pd.SetQuery(context.Background(), `{__name__=~".+"}[1000d]`); err != nil {
		r.Fail("P03", "valid-query-rejected", "the match-everything range selector was rejected: %v", err)
		return
	}
	if err := w.pd.ManuallyExecuteQuery(context.Background(), func(res *promql.Result) error { w.final = canon(res); return nil }); err != nil {
		r.Fail("P03", "query-failed", "the match-everything range selector failed: %v", err)
		return
	}
	w.finished = true
	w.judge()
}

func (w *promWorld) setQuery(q string, bad bool) {
	op := &setq{q: q, inv: w.next(), bad: bad}
	w.qs = append(w.qs, op)
	err := w.pd.SetQuery(context.Background(), q)
	op.resp = w.next()
	op.ok = err == nil
	w.r.S.Note("set-query", q, op.ok)
	if bad && err == nil {
		w.r.Fail("P04", "bad-query-accepted", "SetQuery accepted %q", q)
	}
	if !bad && err != nil {
		w.r.Fail("P04", "good-query-rejected", "SetQuery rejected %q: %v", q, err)
	}
}

func setOf(s sets.String) map[string]bool {
	m := map[string]bool{}
	for k := range s {
		m[k] = true
	}
	return m
}

// readIndex polls the index while rounds run: what is once visible stays
// visible, what a caller does to a returned set stays with the caller, and a
// returned set does not change afterwards.
func (w *promWorld) readIndex(n, spread int) {
	r := w.r
	seenN := map[string]bool{}
	seenD := map[string]map[string]bool{}
	type held struct {
		s    sets.String
		want map[string]bool
		what string
	}
	var keep []held
	must := func(what string, before, now map[string]bool) {
		for _, k := range sortedKeys(before) {
			if !now[k] {
				r.Fail("P05", "index-forgot", "%s lost %q", what, k)
			}
		}
	}
	hold := func(s sets.String, what string) map[string]bool {
		m := setOf(s)
		keep = append(keep, held{s, setOf(s), what})
		return m
	}
	for ; n > 0; n-- {
		dsim.Sleep(ms(r.W.Intn(spread + 100)))
		lower := w.projection(false)
		names := hold(w.idx.GetMetricNames(), "the metric names")
		upper := w.projection(true)
		must("the set of metric names", seenN, names)
		for _, k := range sortedKeys(lower) {
			if !names[k] {
				r.Fail("P05", "index-incomplete", "metric %q was scraped in a finished round but is not in the index", k)
			}
		}
		for _, k := range sortedKeys(names) {
			if upper[k] == nil {
				r.Fail("P05", "index-invented", "metric %q is in the index but no accepted round served it", k)
			}
		}
		seenN = names
		for _, m := range sortedKeys(names) {
			lower := w.projection(false)
			dims := hold(w.idx.GetStoredDimensionsForMetric(m), "the labels of "+m)
			upper := w.projection(true)
			for _, d := range sortedKeys(lower[m]) {
				if !dims[d] {
					r.Fail("P05", "index-incomplete", "label %q of metric %q was scraped in a finished round but is not in the index", d, m)
				}
			}
			for _, d := range sortedKeys(dims) {
				if upper[m][d] == nil {
					r.Fail("P05", "index-invented", "label %q of metric %q is in the index but no accepted round served it", d, m)
				}
				k := m + "\xff" + d
				vals := hold(w.idx.GetStoredValuesForMetricAndDimension(m, d), "the values of "+m+"/"+d)
				up := w.projection(true)
				must("the values of "+m+"/"+d, seenD[k], vals)
				for _, v := range sortedKeys(lower[m][d]) {
					if !vals[v] {
						r.Fail("P05", "index-incomplete", "value %q of %s{%s} was scraped in a finished round but is not in the index", v, m, d)
					}
				}
				for _, v := range sortedKeys(vals) {
					if !up[m][d][v] {
						r.Fail("P05", "index-invented", "value %q of %s{%s} is in the index but no accepted round served it", v, m, d)
					}
				}
				seenD[k] = vals
			}
		}
		for _, h := range keep {
			now := setOf(h.s)
			if len(now) != len(h.want) {
				r.Fail("P05", "snapshot-changed", "%s handed out earlier went from %d to %d entries", h.what, len(h.want), len(now))
			}
		}
		if n == 1 || r.W.Permille(200) {
			// deface what we hold: the index must not notice
			for _, h := range keep {
				if h.s != nil {
					h.s.Insert("defaced-by-reader")
					h.want["defaced-by-reader"] = true
				}
			}
		}
		r.Probe("index-read")
	}
}

// projection lists metric -> label -> value of every sample of finished
// accepted rounds, plus (upper) of every sample any round still in progress
// may contribute.
func (w *promWorld) projection(upper bool) map[string]map[string]map[string]bool {
	out := map[string]map[string]map[string]bool{}
	for _, rd := range w.rounds {
		if rd.done && rd.loaded == 0 || !upper && (!rd.done || rd.loaded != 1) {
			continue
		}
		for _, q := range rd.reqs {
			for _, s := range q.Samples {
				n := s.Labels.Get(labels.MetricName)
				if out[n] == nil {
					out[n] = map[string]map[string]bool{}
				}
				for _, l := range s.Labels {
					if l.Name == labels.MetricName {
						continue
					}
					if out[n][l.Name] == nil {
						out[n][l.Name] = map[string]bool{}
					}
					out[n][l.Name][l.Value] = true
				}
			}
		}
	}
	return out
}

func (w *promWorld) snapshotIndex() map[string]map[string]map[string]bool {
	out := map[string]map[string]map[string]bool{}
	for _, m := range sortedKeys(setOf(w.idx.GetMetricNames())) {
		out[m] = map[string]map[string]bool{}
		for _, d := range sortedKeys(setOf(w.idx.GetStoredDimensionsForMetric(m))) {
			out[m][d] = setOf(w.idx.GetStoredValuesForMetricAndDimension(m, d))
		}
	}
	return out
}

// judge compares the whole run with the model.
func (w *promWorld) judge() {
	r := w.r
	if w.final.Bad != "" {
		r.Fail("P02", "dump-malformed", "%s", w.final.Bad)
		r.Fail("P01", "dump-malformed", "%s", w.final.Bad)
	}
	if w.final.Err {
		r.Fail("P03", "query-failed", "the match-everything range selector failed: %s", w.final.Msg)
		return
	}
	// learn each round's timestamp from its sentinel samples
	byVal := map[string]int64{}
	for k, ps := range w.final.S {
		if strings.Contains(k, sentinel) {
			for _, p := range ps {
				byVal[k+fval(p.v)] = p.t
			}
		}
	}
	var model []Smp
	for _, rd := range w.rounds {
		var ts int64
		have := false
		for _, q := range rd.reqs {
			for _, s := range q.Samples {
				if s.Labels.Get(labels.MetricName) != sentinel {
					continue
				}
				t, ok := byVal[s.Labels.String()+fval(s.Value)]
				if ok && rd.loaded == 0 {
					r.Fail("P01", "failed-round-visible", "round %d failed (%v) but target %d's sample of it is stored", rd.id, rd.err, q.Target)
				}
				if ok && !have {
					ts, have = t, true
				}
				if ok && t != ts {
					r.Fail("P01", "mixed-timestamps", "round %d: samples without explicit timestamp are stored at %d and %d", rd.id, ts, t)
				}
				if !ok && rd.loaded == 1 && q.Outcome != "empty-200" {
					r.Fail("P01", "round-lost", "round %d succeeded but target %d's samples are not stored", rd.id, q.Target)
				}
			}
		}
		if rd.loaded == -1 {
			rd.loaded = 0
			if have {
				rd.loaded = 1
			}
		}
		if rd.loaded == 1 && have {
			lo, hi := rd.wallLo.UnixMilli(), rd.wallHi.UnixMilli()
			if ts < lo || ts > hi {
				r.Fail("P01", "timestamp-outside-round", "round %d ran between %d and %d but its samples are stored at %d", rd.id, lo, hi, ts)
			}
		}
		if rd.loaded == 1 {
			for _, q := range rd.reqs {
				for i := range q.Samples {
					if !q.Samples[i].Explicit {
						q.Samples[i].TS = ts
					}
				}
				model = append(model, q.Samples...)
			}
		}
	}
	ref := newRef(model)
	want := &Res{Kind: "matrix", S: map[string][]pt{}}
	for _, s := range ref.series {
		want.S[s.l.String()] = s.pts
	}
	if d := w.final.diff(want); d != "" {
		r.Fail("P02", "dump-differs", "what is stored is not what was scraped: %s", d)
		r.Fail("P01", "dump-differs", "what is stored is not what was scraped: %s", d)
	}
	// the index
	proj := map[string]map[string]map[string]bool{}
	for _, s := range model {
		n := s.Labels.Get(labels.MetricName)
		if proj[n] == nil {
			proj[n] = map[string]map[string]bool{}
		}
		for _, l := range s.Labels {
			if l.Name != labels.MetricName {
				if proj[n][l.Name] == nil {
					proj[n][l.Name] = map[string]bool{}
				}
				proj[n][l.Name][l.Value] = true
			}
		}
	}
	if d := diff3(w.finalIdx, proj); d != "" {
		r.Fail("P05", "index-differs", "after all rounds the index differs from what was scraped: %s", d)
		r.Fail("P01", "index-differs", "after all rounds the index differs from what was scraped: %s", d)
	}
	w.judgeCallbacks()
}

func diff3(got, want map[string]map[string]map[string]bool) string {
	for _, n := range sortedKeys(want) {
		if got[n] == nil {
			return fmt.Sprintf("metric %q is missing", n)
		}
		for _, d := range sortedKeys(want[n]) {
			for _, v := range sortedKeys(want[n][d]) {
				if !got[n][d][v] {
					return fmt.Sprintf("%s{%s=%q} is missing", n, d, v)
				}
			}
		}
	}
	for _, n := range sortedKeys(got) {
		if want[n] == nil {
			return fmt.Sprintf("metric %q was never in an accepted round", n)
		}
		for _, d := range sortedKeys(got[n]) {
			for _, v := range sortedKeys(got[n][d]) {
				if !want[n][d][v] {
					return fmt.Sprintf("%s{%s=%q} was never in an accepted round", n, d, v)
				}
			}
		}
	}
	return ""
}

// judgeCallbacks: each delivered result is the value of a query that was the
// accepted one at some instant of its round, over the whole rounds stored so
// far.
func (w *promWorld) judgeCallbacks() {
	r := w.r
	var model []Smp
	nEval := 0
	for _, c := range w.cbs {
		rd := c.round
		if rd == nil || rd.loaded != 1 {
			continue
		}
		// rounds that were stored but had no query to run
		ambiguous := false
		for _, o := range w.rounds {
			if o.loaded != 1 || len(o.cbs) > 0 || o.added || o.inv > c.seq {
				continue
			}
			if o.resp < rd.inv {
				o.added = true
				for _, q := range o.reqs {
					model = append(model, q.Samples...)
				}
			} else {
				ambiguous = true
			}
		}
		for _, q := range rd.reqs {
			model = append(model, q.Samples...)
		}
		w.judgeReach(rd, c)
		if ambiguous {
			r.Probe("callback-not-compared")
			continue
		}
		if !w.exact || rd.jumps > 0 || rd.cancelled {
			r.Probe("callback-not-compared")
			continue
		}
		nEval++
		if nEval > 10 && !r.Deep {
			continue
		}
		ref := newRef(model)
		if ref.ties() {
			r.Probe("callback-not-compared")
			continue
		}
		cands := w.candidates(rd.inv, c.seq)
		if len(cands) == 1 && cands[0] == "" {
			r.Fail("P04", "result-without-query", "round %d delivered a result although no query was set", rd.id)
		}
		first := ""
		ok := false
		for _, q := range cands {
			want := evalRef(w.opts, ref, q, w.instant, c.enter, w.window, w.step)
			d := c.res.diff(want)
			if d == "" {
				ok = true
				break
			}
			if first == "" {
				first = fmt.Sprintf("for %q: %s", q, d)
			}
		}
		if ok {
			r.Probe("callback-compared")
			continue
		}
		// which part is wrong?  The right answer of another query of this run is
		// a query-register fault, anything else a data fault.
		for _, s := range w.qs {
			if s.inv < c.seq && evalRefEq(w, ref, s.q, c) {
				r.Fail("P04", "stale-or-rejected-query", "round %d delivered the result of %q, which was not the accepted query then (accepted: %q)", rd.id, s.q, cands)
			}
		}
		rule, prop := "result-differs", "P02"
		r.Fail(prop, rule, "round %d at %v: %s", rd.id, c.enter.UnixMilli(), first)
		r.Fail("P04", rule, "round %d at %v: %s", rd.id, c.enter.UnixMilli(), first)
	}
}

// judgeReach: however long anything took, a series of results reaches the round
// it was made for.
func (w *promWorld) judgeReach(rd *Round, c *cbRec) {
	r := w.r
	if w.instant || rd.jumps > 0 || rd.cancelled || c.res.Err || c.res.Kind != "matrix" {
		return
	}
	for _, q := range w.candidates(rd.inv, c.seq) {
		if q != "1+1" && q != "time()" && q != "vector(1)" {
			return
		}
	}
	last := int64(0)
	for _, p := range c.res.S {
		if len(p) > 0 && p[len(p)-1].t > last {
			last = p[len(p)-1].t
		}
	}
	r.Probe("reach-compared")
	if at := rd.wallLo.Add(-(w.window % w.step)).UnixMilli(); last < at {
		r.Fail("P04", "without-this-round", "round %d, started at %d, delivered a result that ends at %d", rd.id, at, last)
		r.Fail("P02", "without-this-round", "round %d, started at %d, delivered a result that ends at %d", rd.id, at, last)
	}
}

func evalRefEq(w *promWorld, ref *refStore, q string, c *cbRec) bool {
	return c.res.diff(evalRef(w.opts, ref, q, w.instant, c.enter, w.window, w.step)) == ""
}

// candidates: queries that may be in force at some instant of [from,to].
func (w *promWorld) candidates(from, to int) []string {
	var out []string
	for i, s := range w.qs {
		if !s.ok || s.inv > to {
			continue
		}
		over := false // superseded before `from` for certain
		for j, o := range w.qs {
			if i != j && o.ok && o.inv > s.resp && o.resp < from {
				over = true
			}
		}
		if !over {
			out = append(out, s.q)
		}
	}
	return out
}

func promPost(r *R, end string) {
	w, _ := r.Ctx.(*promWorld)
	if w == nil || len(r.Fails) > 0 {
		return
	}
	if !w.finished && end != "violation" {
		r.Fails = append(r.Fails, Failure{r.Prop, "stuck:" + w.stage, fmt.Sprintf("not finished after %v of simulated time (%s); still waiting: %s", r.S.Elapsed(), end, strings.Join(r.S.AtEnd, ", "))})
	}
	// a cancelled scrape ends promptly
	if r.Prop == "P03" && len(r.Fails) == 0 && r.S.Cfg.StallPm == 0 {
		for _, rd := range w.rounds {
			if rd.cancelled && rd.done && len(rd.reqs) > 0 && rd.end-rd.cancelAt > 2*time.Second && rd.reqs[len(rd.reqs)-1].At < rd.cancelAt && rd.reqs[len(rd.reqs)-1].End > rd.cancelAt+2*time.Second {
				r.Fails = append(r.Fails, Failure{"P03", "cancel-ignored", fmt.Sprintf("round %d was cancelled at %v but its request ended only at %v", rd.id, rd.cancelAt, rd.reqs[len(rd.reqs)-1].End)})
			}
		}
	}
}

// clockSeen widens the wall-clock span of the rounds in progress.
func (w *promWorld) clockSeen() {
	now := dsim.Now()
	for _, rd := range w.active {
		if now.Before(rd.wallLo) {
			rd.wallLo = now
		}
		if now.After(rd.wallHi) {
			rd.wallHi = now
		}
	}
}
