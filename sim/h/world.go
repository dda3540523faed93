package h

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/prometheus/prometheus/pkg/labels"
	"verif.local/sim/dsim"
)

func resetWorld() {
	observer = nil
	dsim.Observer = func(what string, v ...any) {
		if observer != nil {
			observer(what, v...)
		}
	}
}

var observer func(what string, v ...any)

// Smp is one sample a simulated target served.
type Smp struct {
	Labels   labels.Labels // as stored: body labels plus instance
	Value    float64
	Explicit bool
	TS       int64 // explicit timestamp, or the round's once known
	Line     string
}

// Req is one HTTP request a target received.
type Req struct {
	Round   any // value of the round key in the request context
	Target  int
	URL     string
	Outcome string // "ok" or the fault kind
	Good    bool   // the reply is a complete 200 exposition
	Samples []Smp
	Opened  bool // a response was handed out
	EOF     bool // the whole body was read
	Closed  bool
	At      time.Duration
	End     time.Duration
	Wall    time.Time
	Done    bool // RoundTrip returned
	NoCtx   bool
	Method  string
	Seq     int
}

type tseries struct {
	name string
	lbls [][2]string // without empty values
	raw  string      // rendered label block, may contain extra empty labels
}

// Target is one simulated metrics endpoint.
type Target struct {
	URL    string
	Series []tseries
	Serves int
}

type roundKey struct{}

// Net is the simulated network plus the targets behind it.
type Net struct {
	r           *R
	T           []*Target
	Reqs        []*Req
	FaultPm     int // chance per request that something goes wrong
	Kinds       []string
	Off         bool // healthy from now on
	Explicit    int  // permille of samples with explicit timestamp
	Special     int  // permille of samples with special values
	Churn       int  // permille of series absent from one serve
	Delay       int  // permille of requests that take a while though healthy
	DelayMax    int  // ms
	StallMax    int  // ms, longest hang
	OnReq       func(q *Req)
	Inflight    int
	MaxInflight int
	counter     int
	MinDelay    int  // ms every reply takes
	Plain       bool // no comments or odd spacing
	Dup         int
	Collides    bool    // has two series whose label sets hash the same
	Clamp       bool    // explicit timestamps within the last minute
	Boost       float64 // added to every value
}

var netKinds = []string{"refused", "reset-mid-body", "status-500", "status-404-html", "status-503-metrics", "malformed", "slow-body", "hang", "empty-200", "garbage-tail", "unexpected-eof", "status-odd"}

func NewNet(r *R) *Net { return &Net{r: r, StallMax: 8000, DelayMax: 300} }

var metricPool = []string{"requests_total", "up", "a", "ab", "abs_x", "node:cpu:rate5m", "sum_of_all", "by", "le_bucket", "inf_x", "go_goroutines", "rate_limit", "x", "offset_bytes", "http_requests_total", "a_metric_with_a_name_that_does_not_fit_into_any_reasonable_column_of_a_chart_or_list"}
var lblPool = []string{"job", "code", "path", "le", "zone", "by", "instance_id", "a", "a_label_whose_name_is_much_longer_than_the_width_of_a_terminal_and_then_some", "B"}
var valPool = []string{"x", "y", "api server", "200", "500", "+Inf", "0.5", "/a/b?c=d", "q\"uote", "back\\slash", "new\nline", "ünï", "日本", "{}", "a,b", "", "x y", "prod", strings.Repeat("long value ", 30), "instance", "-", "0", "1e3", "Z", "é"}

func escapeVal(v string) string {
	return strings.NewReplacer("\\", "\\\\", "\n", "\\n", "\"", "\\\"").Replace(v)
}

// AddTargets draws n targets with up to m series each.
func (n *Net) AddTargets(k, m int, simple bool) {
	w := n.r.W
	for i := 0; i < k; i++ {
		t := &Target{URL: fmt.Sprintf("http://t%d.sim:9%d00/metrics", i, i)}
		seen := map[string]bool{}
		ns := w.Range(1, m)
		for j := 0; j < ns; j++ {
			s := tseries{name: metricPool[w.Intn(len(metricPool))]}
			nl := w.Intn(4)
			used := map[string]bool{}
			var raw []string
			for l := 0; l < nl; l++ {
				ln := lblPool[w.Intn(len(lblPool))]
				v := valPool[w.Intn(len(valPool))]
				if simple {
					v = []string{"x", "y", "200", "api"}[w.Intn(4)]
				}
				if used[ln] {
					continue
				}
				used[ln] = true
				raw = append(raw, ln+"=\""+escapeVal(v)+"\"")
				if v != "" {
					s.lbls = append(s.lbls, [2]string{ln, v})
				}
			}
			if !simple && w.Permille(80) {
				raw = append(raw, `instance="liar"`)
			}
			if len(raw) > 0 {
				s.raw = "{" + strings.Join(raw, ",") + "}"
			}
			key := n.labelsOf(t, s).String()
			if seen[key] {
				continue
			}
			seen[key] = true
			t.Series = append(t.Series, s)
		}
		n.T = append(n.T, t)
	}
}

func (n *Net) labelsOf(t *Target, s tseries) labels.Labels {
	m := map[string]string{labels.MetricName: s.name}
	for _, l := range s.lbls {
		m[l[0]] = l[1]
	}
	m["instance"] = t.URL
	return labels.FromMap(m)
}

// hasDigits: some series has a value of the label that looks like a number.
func (n *Net) hasDigits(name string) bool {
	for _, t := range n.T {
		for _, s := range t.Series {
			for _, l := range s.lbls {
				if l[0] == name && strings.ContainsAny(l[1], "-+.0123456789") {
					return true
				}
			}
		}
	}
	return false
}

const sentinel = "verif_round"

// serve renders the target's current state.  Every ordinary value is unique in
// the run, so a stored sample can be traced back to the reply it came from.
func (n *Net) serve(ti int, q *Req) []byte {
	w := n.r.W
	t := n.T[ti]
	t.Serves++
	n.counter++
	var b bytes.Buffer
	emit := func(s tseries, v float64, explicit bool, ts int64) {
		vs := strconv.FormatFloat(v, 'g', -1, 64)
		if math.IsInf(v, 1) {
			vs = "+Inf"
		}
		line := s.name + s.raw + " " + vs
		if explicit {
			line += " " + strconv.FormatInt(ts, 10)
		}
		b.WriteString(line + "\n")
		q.Samples = append(q.Samples, Smp{Labels: n.labelsOf(t, s), Value: v, Explicit: explicit, TS: ts, Line: line})
	}
	if !n.Plain && w.Permille(300) {
		b.WriteString("# HELP x some help text\n# TYPE x gauge\n")
	}
	for i, s := range t.Series {
		if n.Churn > 0 && w.Permille(n.Churn) {
			continue
		}
		v := float64(n.counter*1000+i) + 0.5
		if n.Special > 0 && w.Permille(n.Special) {
			v = []float64{math.NaN(), math.Inf(1), math.Inf(-1), 0, -1, 1e300, 1e-300, math.Copysign(0, -1)}[w.Intn(8)]
		}
		v += n.Boost
		var ts int64
		ex := n.Explicit > 0 && w.Permille(n.Explicit)
		if ex {
			span := 600_000
			if n.Clamp {
				span = 50_000
			}
			ts = dsim.Now().UnixMilli() - int64(w.Intn(span))
			if !n.Clamp && w.Permille(100) {
				ts += 700_000
			}
		}
		emit(s, v, ex, ts)
		if !n.Plain && w.Permille(50) {
			b.WriteString("\n# a comment\n")
		}
	}
	emit(tseries{name: sentinel, lbls: [][2]string{{"t", strconv.Itoa(ti)}}, raw: "{t=\"" + strconv.Itoa(ti) + "\"}"}, float64(n.counter), false, 0)
	return b.Bytes()
}

type simBody struct {
	n      *Net
	q      *Req
	data   []byte
	failAt int // -1: never
	err    error
	chunk  int
	pause  time.Duration
	req    *http.Request
}

func (b *simBody) Read(p []byte) (int, error) {
	if b.q.Closed {
		return 0, errors.New("sim: read on closed body")
	}
	if b.pause > 0 {
		if err := sleepCtx(b.req, b.pause); err != nil {
			return 0, err
		}
	} else {
		dsim.Y()
	}
	if b.req.Context().Err() != nil {
		return 0, b.req.Context().Err()
	}
	if b.failAt == 0 {
		return 0, b.err
	}
	if len(b.data) == 0 {
		if b.failAt > 0 {
			return 0, b.err
		}
		b.q.EOF = true
		return 0, io.EOF
	}
	k := len(p)
	if b.chunk > 0 && k > b.chunk {
		k = b.chunk
	}
	if b.failAt > 0 && k > b.failAt {
		k = b.failAt
	}
	k = copy(p[:k], b.data)
	b.data = b.data[k:]
	if b.failAt > 0 {
		b.failAt -= k
	}
	return k, nil
}

func (b *simBody) Close() error { b.q.Closed = true; return nil }

// sleepCtx sleeps in simulated time unless the request is cancelled.
func sleepCtx(req *http.Request, d time.Duration) error {
	tm := dsim.NewTimer(d)
	defer tm.Stop()
	a, c := dsim.RC(req.Context().Done()), dsim.RC(tm.C)
	if dsim.Select(false, a, c) == 0 {
		return req.Context().Err()
	}
	return nil
}

// RoundTrip is the seam: it stands in for the whole network.
func (n *Net) RoundTrip(req *http.Request) (*http.Response, error) {
	q := &Req{Round: req.Context().Value(roundKey{}), URL: req.URL.String(), Target: -1, At: n.r.S.Elapsed(), Wall: dsim.Now(), Outcome: "ok", Method: req.Method}
	for i, t := range n.T {
		if t.URL == q.URL {
			q.Target = i
		}
	}
	q.Seq = len(n.Reqs)
	n.Reqs = append(n.Reqs, q)
	n.Inflight++
	if n.Inflight > n.MaxInflight {
		n.MaxInflight = n.Inflight
	}
	defer func() { n.Inflight--; q.Done = true; q.End = n.r.S.Elapsed() }()
	if n.OnReq != nil {
		n.OnReq(q)
	}
	if req.Body != nil {
		req.Body.Close()
	}
	if q.Target < 0 {
		q.Outcome = "no such host"
		return nil, errors.New("sim: no such host " + q.URL)
	}
	f := n.r.F
	kind := ""
	if !n.Off && n.FaultPm > 0 && f.Permille(n.FaultPm) {
		kind = n.Kinds[f.Intn(len(n.Kinds))]
	}
	if err := req.Context().Err(); err != nil {
		q.Outcome = "cancelled"
		return nil, err
	}
	if n.MinDelay > 0 {
		if err := sleepCtx(req, ms(n.MinDelay)); err != nil {
			q.Outcome = "cancelled"
			return nil, err
		}
	}
	if kind == "" && !n.Off && n.Delay > 0 && f.Permille(n.Delay) {
		n.r.S.Fired("net:delay")
		if err := sleepCtx(req, ms(f.Range(1, n.DelayMax))); err != nil {
			q.Outcome = "cancelled"
			return nil, err
		}
	}
	if kind != "" {
		n.r.S.Fired("net:" + kind)
		q.Outcome = kind
	}
	n.r.S.Note("request", q.Target, q.Outcome)
	resp := &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"text/plain; version=0.0.4"}}, Request: req, ContentLength: -1}
	body := &simBody{n: n, q: q, failAt: -1, req: req}
	switch kind {
	case "refused":
		return nil, errors.New("sim: connection refused")
	case "hang":
		if err := sleepCtx(req, ms(f.Range(500, n.StallMax))); err != nil {
			return nil, err
		}
		if f.Permille(500) {
			return nil, errors.New("sim: i/o timeout")
		}
		body.data = n.serve(q.Target, q)
		q.Good = true
	case "reset-mid-body", "unexpected-eof":
		body.data = n.serve(q.Target, q)
		body.failAt = f.Range(0, len(body.data))
		if body.failAt == len(body.data) {
			body.failAt++ // everything arrived, then the connection broke
		}
		body.err = errors.New("sim: connection reset by peer")
		if kind == "unexpected-eof" {
			body.err = io.ErrUnexpectedEOF
		}
		body.chunk = f.Range(1, 200)
	case "status-500":
		resp.StatusCode, resp.Status = 500, "500 Internal Server Error"
		body.data = nil
	case "status-404-html":
		resp.StatusCode, resp.Status = 404, "404 Not Found"
		body.data = []byte("<html>not found</html>\n")
	case "status-503-metrics":
		resp.StatusCode, resp.Status = 503, "503 Service Unavailable"
		body.data = n.serve(q.Target, q)
	case "status-odd":
		// something that looks fine but is not the whole of it
		resp.StatusCode, resp.Status = 206, "206 Partial Content"
		switch f.Intn(4) {
		case 0:
			resp.StatusCode, resp.Status = 204, "204 No Content"
		case 1:
			resp.StatusCode, resp.Status = 302, "302 Found"
			body.data = n.serve(q.Target, q)
		default:
			lines := strings.SplitAfter(string(n.serve(q.Target, q)), "\n")
			body.data = []byte(strings.Join(lines[:f.Intn(len(lines))], ""))
		}
	case "malformed":
		d := n.serve(q.Target, q)
		lines := strings.SplitAfter(string(d), "\n")
		at := f.Intn(len(lines))
		bad := []string{"requests_total{job=\"x\" 3\n", "=5\n", "a{b=\"c\"} notanumber\n", "a{b=c} 1\n", "a 1 2 3\n", "{} 1\n", "a{x=\"\\z\"\n"}[f.Intn(7)]
		lines = append(lines[:at:at], append([]string{bad}, lines[at:]...)...)
		body.data = []byte(strings.Join(lines, ""))
	case "garbage-tail":
		d := n.serve(q.Target, q)
		// the reply was cut inside its last line: not a valid exposition
		body.data = append(d, []byte("requests_total{job=\"x")...)
	case "slow-body":
		body.data = n.serve(q.Target, q)
		body.chunk = 1 + len(body.data)/f.Range(2, 8)
		body.pause = ms(f.Range(1, 400))
		q.Good = true
	case "empty-200":
		body.data = nil
		q.Good = true
	default:
		body.data = n.serve(q.Target, q)
		q.Good = true
		if n.r.W.Permille(200) {
			body.chunk = n.r.W.Range(1, 64)
		}
	}
	q.Opened = true
	resp.Body = body
	return resp, nil
}

// URLs of the targets.
func (n *Net) URLs() []string {
	var u []string
	for _, t := range n.T {
		u = append(u, t.URL)
	}
	return u
}

// ---- values

func sameVal(a, b float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	return a == b
}

func nearVal(a, b float64) bool {
	if sameVal(a, b) {
		return true
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) || math.IsNaN(a) || math.IsNaN(b) {
		return false
	}
	d := math.Abs(a - b)
	return d <= 1e-9*math.Max(math.Abs(a), math.Abs(b)) || d < 1e-12
}

func fval(v float64) string { return strconv.FormatFloat(v, 'g', 12, 64) }

// ---- set helpers

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// simOut is the command's standard output.
type simOut struct {
	r       *R
	buf     bytes.Buffer
	FailAt  int // bytes accepted before writes fail; -1 never
	Short   bool
	Err     error
	Failed  bool
	Writes  int
	OnWrite func(p []byte)
}

func (o *simOut) Write(p []byte) (int, error) {
	dsim.Y()
	o.Writes++
	if o.OnWrite != nil {
		o.OnWrite(p)
	}
	if o.FailAt >= 0 && o.buf.Len()+len(p) > o.FailAt {
		k := o.FailAt - o.buf.Len()
		if k < 0 || !o.Short {
			k = 0
		}
		o.buf.Write(p[:k])
		if !o.Failed {
			o.r.S.Fired("stdout:" + o.Err.Error())
		}
		o.Failed = true
		o.FailAt = 0
		return k, o.Err
	}
	return o.buf.Write(p)
}
