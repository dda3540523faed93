package h

import (
	"context"
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"
	"github.com/prometheus/prometheus/storage"
	"github.com/prometheus/prometheus/tsdb/chunkenc"
)

// The reference store: a plain list of samples.  Selection is a linear scan
// that asks every matcher about every series; nothing is indexed or shared
// with the code under test.

type pt struct {
	t int64
	v float64
}

type refSeries struct {
	l   labels.Labels
	pts []pt
}

type refStore struct{ series []*refSeries }

// newRef builds the store from samples whose TS is final.
func newRef(s []Smp) *refStore {
	st := &refStore{}
	by := map[string]*refSeries{}
	for _, x := range s {
		k := x.Labels.String()
		rs := by[k]
		if rs == nil {
			rs = &refSeries{l: x.Labels}
			by[k] = rs
			st.series = append(st.series, rs)
		}
		rs.pts = append(rs.pts, pt{x.TS, x.Value})
	}
	for _, rs := range st.series {
		sort.SliceStable(rs.pts, func(i, j int) bool { return rs.pts[i].t < rs.pts[j].t })
	}
	return st
}

// ties reports whether some series has two samples with one timestamp.
func (st *refStore) ties() bool {
	for _, rs := range st.series {
		for i := 1; i < len(rs.pts); i++ {
			if rs.pts[i].t == rs.pts[i-1].t {
				return true
			}
		}
	}
	return false
}

func (st *refStore) Querier(ctx context.Context, mint, maxt int64) (storage.Querier, error) {
	return &refQuerier{st}, nil
}

type refQuerier struct{ st *refStore }

func (q *refQuerier) LabelValues(string, ...*labels.Matcher) ([]string, storage.Warnings, error) {
	return nil, nil, nil
}
func (q *refQuerier) LabelNames(...*labels.Matcher) ([]string, storage.Warnings, error) {
	return nil, nil, nil
}
func (q *refQuerier) Close() error { return nil }
func (q *refQuerier) Select(sorted bool, h *storage.SelectHints, ms ...*labels.Matcher) storage.SeriesSet {
	set := &refSet{i: -1}
	for _, rs := range q.st.series {
		ok := true
		for _, m := range ms {
			if !m.Matches(rs.l.Get(m.Name)) {
				ok = false
			}
		}
		if ok {
			set.s = append(set.s, rs)
		}
	}
	return set
}

type refSet struct {
	s []*refSeries
	i int
}

func (s *refSet) Next() bool                 { s.i++; return s.i < len(s.s) }
func (s *refSet) At() storage.Series         { return &refOne{s.s[s.i]} }
func (s *refSet) Err() error                 { return nil }
func (s *refSet) Warnings() storage.Warnings { return nil }

type refOne struct{ s *refSeries }

func (o *refOne) Labels() labels.Labels       { return o.s.l }
func (o *refOne) Iterator() chunkenc.Iterator { return &refIter{s: o.s, i: -1} }

type refIter struct {
	s *refSeries
	i int
}

func (it *refIter) Next() bool { it.i++; return it.i < len(it.s.pts) }
func (it *refIter) Seek(t int64) bool {
	if it.i < 0 {
		it.i = 0
	}
	for it.i < len(it.s.pts) && it.s.pts[it.i].t < t {
		it.i++
	}
	return it.i < len(it.s.pts)
}
func (it *refIter) At() (int64, float64) { p := it.s.pts[it.i]; return p.t, p.v }
func (it *refIter) Err() error           { return nil }

// Res is a query result reduced to what a user can see.
type Res struct {
	Err  bool
	Msg  string
	Kind string
	S    map[string][]pt // labels -> points (sorted)
	N    int
	Str  string
	Bad  string // malformed result
}

func canon(r *promql.Result) *Res {
	out := &Res{S: map[string][]pt{}}
	if r == nil {
		out.Bad = "nil result"
		return out
	}
	if r.Err != nil {
		out.Err = true
		out.Msg = r.Err.Error()
		return out
	}
	add := func(l labels.Labels, p promql.Point) {
		k := l.String()
		out.S[k] = append(out.S[k], pt{p.T, p.V})
		out.N++
	}
	switch v := r.Value.(type) {
	case promql.Vector:
		out.Kind = "vector"
		for _, s := range v {
			add(s.Metric, s.Point)
		}
	case promql.Matrix:
		out.Kind = "matrix"
		for _, s := range v {
			k := s.Metric.String()
			if _, dup := out.S[k]; dup {
				out.Bad = "series " + k + " appears twice"
			}
			for i, p := range s.Points {
				if i > 0 && s.Points[i-1].T > p.T {
					out.Bad = fmt.Sprintf("series %s: timestamp %d after %d", k, p.T, s.Points[i-1].T)
				}
				add(s.Metric, p)
			}
		}
	case promql.Scalar:
		out.Kind = "scalar"
		out.S["scalar"] = []pt{{v.T, v.V}}
	case promql.String:
		out.Kind = "string"
		out.Str = v.V
	default:
		out.Kind = fmt.Sprintf("%T", v)
	}
	return out
}

func sortPts(p []pt) []pt {
	q := append([]pt(nil), p...)
	sort.SliceStable(q, func(i, j int) bool {
		if q[i].t != q[j].t {
			return q[i].t < q[j].t
		}
		a, b := q[i].v, q[j].v
		if math.IsNaN(a) || math.IsNaN(b) {
			return math.IsNaN(a) && !math.IsNaN(b)
		}
		return a < b
	})
	return q
}

// diff explains the first difference, or returns "".
func (a *Res) diff(b *Res) string {
	if a.Bad != "" {
		return a.Bad
	}
	if a.Err != b.Err {
		return fmt.Sprintf("error %q, expected error %q", a.Msg, b.Msg)
	}
	if a.Err {
		return ""
	}
	if a.Kind != b.Kind {
		return fmt.Sprintf("a %s, expected a %s", a.Kind, b.Kind)
	}
	if a.Str != b.Str {
		return fmt.Sprintf("string %q, expected %q", a.Str, b.Str)
	}
	for _, k := range sortedKeys(b.S) {
		p := b.S[k]
		g, ok := a.S[k]
		if !ok {
			return fmt.Sprintf("series %s missing (expected %d points)", k, len(p))
		}
		g, p = sortPts(g), sortPts(p)
		if len(g) != len(p) {
			return fmt.Sprintf("series %s has %d points, expected %d (%s | %s)", k, len(g), len(p), ptStr(g), ptStr(p))
		}
		for i := range p {
			if g[i].t != p[i].t || !nearVal(g[i].v, p[i].v) {
				return fmt.Sprintf("series %s point %d is %s@%d, expected %s@%d", k, i, fval(g[i].v), g[i].t, fval(p[i].v), p[i].t)
			}
		}
	}
	for _, k := range sortedKeys(a.S) {
		if _, ok := b.S[k]; !ok {
			return fmt.Sprintf("unexpected series %s", k)
		}
	}
	return ""
}

func ptStr(p []pt) string {
	var s []string
	for i, x := range p {
		if i == 6 {
			s = append(s, "…")
			break
		}
		s = append(s, fmt.Sprintf("%s@%d", fval(x.v), x.t))
	}
	return strings.Join(s, " ")
}

var refEngines = map[string]*promql.Engine{}

func evalRef(opts promql.EngineOpts, st *refStore, query string, instant bool, now time.Time, window, step time.Duration) *Res {
	key := fmt.Sprint(opts.MaxSamples, opts.EnableAtModifier, opts.EnableNegativeOffset)
	e := refEngines[key]
	if e == nil {
		o := opts
		o.Timeout = time.Hour
		o.NoStepSubqueryIntervalFn = func(int64) int64 { return 60_000 }
		e = promql.NewEngine(o)
		refEngines[key] = e
	}
	var q promql.Query
	var err error
	if instant {
		q, err = e.NewInstantQuery(st, query, now)
	} else {
		q, err = e.NewRangeQuery(st, query, now.Add(-window), now, step)
	}
	if err != nil {
		return &Res{Err: true, Msg: err.Error()}
	}
	defer q.Close()
	return canon(q.Exec(context.Background()))
}
