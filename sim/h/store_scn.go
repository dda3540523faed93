package h

import (
	"context"
	"fmt"
	"math"
	"time"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"
	"github.com/prometheus/prometheus/storage"
	"sigs.k8s.io/instrumentation-tools/promq/prom"
	"verif.local/sim/dsim"
)

// Scenario "store": a history of loads, trims and pauses against the storage,
// with concurrent readers between the changes.

func init() {
	register(&Scenario{Name: "store", Main: storeMain, Post: storePost})
}

type cleanStore interface {
	storage.Queryable
	LoadData([]prom.ParsedSeries) error
	Clean(int64)
}

type storeWorld struct {
	finished bool
	doing    string
}

func storePost(r *R, end string) {
	w, _ := r.Ctx.(*storeWorld)
	if w != nil && !w.finished && len(r.Fails) == 0 && end != "violation" {
		r.Fails = append(r.Fails, Failure{r.Prop, "stuck:" + w.doing, fmt.Sprintf("%s did not finish (%s); still waiting: %v", w.doing, end, r.S.AtEnd)})
	}
}

func storeMain(r *R) {
	w := &storeWorld{}
	r.Ctx = w
	wk := r.W
	var st cleanStore = prom.NewRangeStorage()
	opts := prom.DefaultEngineOptions(10*time.Minute, 5_000_000)
	opts.EnableAtModifier = true
	opts.EnableNegativeOffset = true
	eng := promql.NewEngine(opts)

	// the series that may ever exist
	var all []labels.Labels
	seen := map[string]bool{}
	for k := wk.Range(1, 8); k > 0; k-- {
		m := map[string]string{labels.MetricName: metricPool[wk.Intn(4)]}
		for j := wk.Intn(3); j > 0; j-- {
			m[lblPool[wk.Intn(4)]] = []string{"x", "y", "z"}[wk.Intn(3)]
		}
		l := labels.FromMap(m)
		if !seen[l.String()] {
			seen[l.String()] = true
			all = append(all, l)
		}
	}
	if wk.Permille(120) {
		// two that only differ where the hash does not
		base := all[wk.Intn(len(all))].Map()
		if a, b, ok := collide(wk, base); ok {
			for _, v := range []string{a, b} {
				base["zzz"] = v
				all = append(all, labels.FromMap(base))
			}
			r.Probe("colliding-hashes")
		}
	}
	var model []Smp
	next := 0.0
	base := dsim.Now().UnixMilli()
	now := int64(0)
	maxBack := []int{0, 5_000, 120_000}[wk.Intn(3)]
	load := func() {
		w.doing = "load"
		var b []prom.ParsedSeries
		late := 0
		for _, l := range all {
			if wk.Permille(400) {
				continue
			}
			for k := 1 + wk.Weighted(6, 1, 1); k > 0; k-- {
				next++
				ts := base + now
				if maxBack > 0 && wk.Permille(300) {
					ts -= int64(wk.Intn(maxBack))
					late++
				}
				if wk.Permille(30) {
					ts += int64(wk.Intn(60_000))
				}
				v := next + 0.25
				b = append(b, prom.ParsedSeries{Labels: l, Value: v, Timestamp: ts})
				model = append(model, Smp{Labels: l, Value: v, TS: ts})
			}
		}
		if late > 0 {
			r.S.Fired("late-samples")
		}
		r.Say("load %d samples (%d late) at +%dms", len(b), late, now)
		if err := st.LoadData(b); err != nil {
			r.Fail("P06", "load-failed", "LoadData: %v", err)
		}
	}
	clean := func() {
		w.doing = "trim"
		cut := base + now - int64(wk.Intn(200_000))
		switch wk.Intn(5) {
		case 0:
			cut = base + now + 100_000 // everything
		case 1:
			cut = base - 1_000_000 // nothing
		case 2:
			if len(model) > 0 {
				cut = model[wk.Intn(len(model))].TS // exactly at a sample
			}
		}
		r.Say("trim before +%dms", cut-base)
		st.Clean(cut)
		var keep []Smp
		for _, s := range model {
			if s.TS >= cut {
				keep = append(keep, s)
			}
		}
		if len(keep) < len(model) {
			r.S.Fired("trimmed")
		}
		if len(keep) == 0 && len(model) > 0 {
			r.Probe("trimmed-everything")
		}
		model = keep
	}
	query := func(q string, instant bool, at time.Time) *Res {
		var pq promql.Query
		var err error
		if instant {
			pq, err = eng.NewInstantQuery(st, q, at)
		} else {
			pq, err = eng.NewRangeQuery(st, q, at.Add(-time.Minute), at, 5*time.Second)
		}
		if err != nil {
			return &Res{Err: true, Msg: err.Error()}
		}
		defer pq.Close()
		return canon(pq.Exec(context.Background()))
	}
	check := func() {
		w.doing = "query"
		ref := newRef(model)
		at := time.UnixMilli(base + now)
		far := time.UnixMilli(base + 100*24*3600_000)
		dump := query(`{__name__=~".+"}[1000d]`, true, far)
		want := evalRef(opts, ref, `{__name__=~".+"}[1000d]`, true, far, 0, 0)
		if d := dump.diff(want); d != "" {
			r.Fail("P06", "dump-differs", "the stored samples are not those loaded and not trimmed: %s", d)
			r.Fail("P02", "dump-differs", "the stored samples are not those loaded and not trimmed: %s", d)
		}
		if d := rawDiff(wk, st, ref); d != "" {
			r.Fail("P06", "selection-differs", "%s", d)
			r.Fail("P02", "selection-differs", "%s", d)
		}
		if ref.ties() {
			return
		}
		n := wk.Range(1, 3)
		// nothing but the caller keeps readers and changes apart
		var readers dsim.WaitGroup
		readers.Add(n)
		for i := 0; i < n; i++ {
			m := ""
			for k := wk.Intn(3); k > 0; k-- {
				m += "," + lblPool[wk.Intn(5)] + []string{"=", "!=", "=~", "!~"}[wk.Intn(4)] + `"` + []string{"x", "", ".*", "x|y", ".+", "z"}[wk.Intn(6)] + `"`
			}
			nm := metricPool[wk.Intn(5)]
			q := []string{`{__name__="%s"%s}`, `count_over_time({__name__="%s"%s}[1m])`, `sum by (job) (last_over_time({__name__=~"%s|up"%s}[2m]))`, `rate({__name__="%s"%s}[2m])`, `{__name__!="%s"%s,__name__=~".+"}`}[wk.Intn(5)]
			q = fmt.Sprintf(q, nm, m)
			inst := wk.Permille(500)
			dsim.Go("reader", func() {
				defer readers.Done()
				got := query(q, inst, at)
				want := evalRef(opts, ref, q, inst, at, time.Minute, 5*time.Second)
				if d := got.diff(want); d != "" {
					r.Fail("P06", "query-differs", "%s at +%dms: %s", q, now, d)
					r.Fail("P02", "query-differs", "%s at +%dms: %s", q, now, d)
				}
			})
		}
		readers.Wait()
	}
	ops := wk.Range(4, 24)
	loads, cleans := 0, 0
	for i := 0; i < ops; i++ {
		switch wk.Weighted(5, 3, 4) {
		case 0:
			load()
			loads++
		case 1:
			clean()
			cleans++
		case 2:
			check()
		}
		now += int64(wk.Intn(30_000))
		dsim.Sleep(ms(wk.Intn(100)))
	}
	check()
	r.Nontriv = loads > 1 && cleans > 0
	w.finished = true
}

// rawDiff compares what queriers of the storage select and iterate with the
// reference, including seeks.
func rawDiff(wk *dsim.Stream, st storage.Queryable, ref *refStore) string {
	q, err := st.Querier(context.Background(), math.MinInt64, math.MaxInt64)
	if err != nil {
		return fmt.Sprintf("Querier: %v", err)
	}
	defer q.Close()
	set := q.Select(true, nil, labels.MustNewMatcher(labels.MatchRegexp, labels.MetricName, ".+"))
	got := map[string]bool{}
	for set.Next() {
		s := set.At()
		k := s.Labels().String()
		if got[k] {
			return fmt.Sprintf("series %s is selected twice", k)
		}
		got[k] = true
		var want []pt
		for _, rs := range ref.series {
			if rs.l.String() == k {
				want = rs.pts
			}
		}
		if len(want) == 0 {
			return fmt.Sprintf("series %s is selected but has no samples", k)
		}
		it := s.Iterator()
		if wk.Permille(250) {
			// from the start to the end
			for i, p := range want {
				if !it.Next() {
					return fmt.Sprintf("series %s ends after %d of %d samples", k, i, len(want))
				}
				t, v := it.At()
				if t != p.t || !sameVal(v, p.v) && (i == 0 || want[i-1].t != t) && (i+1 == len(want) || want[i+1].t != t) {
					return fmt.Sprintf("series %s: sample %d is %s@%d, expected %s@%d", k, i, fval(v), t, fval(p.v), p.t)
				}
			}
			if it.Next() {
				return fmt.Sprintf("series %s goes on after its %d samples", k, len(want))
			}
			continue
		}
		at := -1 // the reference position of it, once moved
		for n := 0; n < 3; n++ {
			if at+1 >= len(want) {
				break
			}
			i := at + 1 + wk.Intn(len(want)-at-1)
			t := want[i].t - int64(wk.Intn(2))
			if at >= 0 && t <= want[at].t {
				t = want[i].t // seeks go forward
			}
			if at >= 0 && t <= want[at].t {
				break
			}
			for i > at+1 && want[i-1].t >= t {
				i--
			}
			if !it.Seek(t) {
				return fmt.Sprintf("series %s: seeking to %d finds nothing, there is a sample at %d", k, t, want[i].t)
			}
			if ts, _ := it.At(); ts != want[i].t {
				return fmt.Sprintf("series %s: seeking to %d arrives at %d instead of %d", k, t, ts, want[i].t)
			}
			at = i
			for at+1 < len(want) && want[at+1].t == want[at].t {
				at++ // of samples with the same time any may come first
				if !it.Next() {
					return fmt.Sprintf("series %s ends too early", k)
				}
			}
			if at+1 >= len(want) {
				break
			}
			if !it.Next() {
				return fmt.Sprintf("series %s ends after %d of %d samples", k, at+1, len(want))
			}
			at++
			if ts, _ := it.At(); ts != want[at].t {
				return fmt.Sprintf("series %s: the sample after %d is at %d instead of %d", k, want[at-1].t, ts, want[at].t)
			}
		}
		if it.Seek(want[len(want)-1].t + 1) {
			return fmt.Sprintf("series %s: seeking past the end finds a sample", k)
		}
		if it.Err() != nil {
			return fmt.Sprintf("series %s: %v", k, it.Err())
		}
	}
	for _, rs := range ref.series {
		if len(rs.pts) > 0 && !got[rs.l.String()] {
			return fmt.Sprintf("series %s is not selected", rs.l)
		}
	}
	if err := set.Err(); err != nil {
		return err.Error()
	}
	names := map[string]map[string]bool{}
	for _, rs := range ref.series {
		for _, l := range rs.l {
			if names[l.Name] == nil {
				names[l.Name] = map[string]bool{}
			}
			names[l.Name][l.Value] = true
		}
	}
	for _, n := range sortedKeys(names) {
		vs, _, err := q.LabelValues(n)
		if err != nil {
			return fmt.Sprintf("values of %s: %v", n, err)
		}
		have := map[string]bool{}
		for _, v := range vs {
			have[v] = true
			if !names[n][v] {
				return fmt.Sprintf("label %s is listed with the value %q, which no series has", n, v)
			}
		}
		for _, v := range sortedKeys(names[n]) {
			if !have[v] {
				return fmt.Sprintf("label %s is listed without its value %q", n, v)
			}
		}
	}
	ns, _, err := q.LabelNames()
	if err != nil {
		return fmt.Sprintf("label names: %v", err)
	}
	have := map[string]bool{}
	for _, n := range ns {
		have[n] = true
		if n != "" && names[n] == nil {
			return fmt.Sprintf("the label %s is listed, which no series has", n)
		}
	}
	for _, n := range sortedKeys(names) {
		if !have[n] {
			return fmt.Sprintf("the label %s is not listed", n)
		}
	}
	return ""
}
