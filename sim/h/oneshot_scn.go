package h

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/prometheus/prometheus/pkg/labels"
	"gopkg.in/yaml.v2"
	"sigs.k8s.io/instrumentation-tools/cmd/cli"
	"sigs.k8s.io/instrumentation-tools/promq/prom"
	"verif.local/sim/dsim"
)

// Scenario "oneshot": the whole command in query and list mode, with network
// and output faults.

func init() {
	register(&Scenario{Name: "oneshot", Conf: func(r *R) { r.S.Cfg.Horizon = 10 * time.Minute }, Main: oneshotMain, Post: oneshotPost})
}

type oneshot struct {
	stage    string
	finished bool
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

// unwrapNum parses the numbers Prometheus prints as strings.
func unwrapNum(x any) (float64, bool) {
	switch v := x.(type) {
	case string:
		f, err := strconv.ParseFloat(v, 64)
		return f, err == nil
	case float64:
		return v, true
	case int:
		return float64(v), true
	case int64:
		return float64(v), true
	}
	return 0, false
}

func lblKey(m map[string]any) (string, bool) {
	mm := map[string]string{}
	for k, v := range m {
		s, ok := v.(string)
		if !ok {
			return "", false
		}
		mm[k] = s
	}
	return labels.FromMap(mm).String(), true
}

// parseJSON turns printed JSON back into a result.
func parseJSON(s string, kind string) (*Res, error) {
	var v any
	dec := json.NewDecoder(strings.NewReader(s))
	if err := dec.Decode(&v); err != nil {
		return nil, err
	}
	if rest := strings.TrimSpace(s[dec.InputOffset():]); rest != "" {
		return nil, fmt.Errorf("more than one document: %q", trunc(rest, 80))
	}
	out := &Res{S: map[string][]pt{}, Kind: kind}
	point := func(x any) (pt, error) {
		a, ok := x.([]any)
		if !ok || len(a) != 2 {
			return pt{}, fmt.Errorf("not a point: %v", x)
		}
		t, ok1 := unwrapNum(a[0])
		f, ok2 := unwrapNum(a[1])
		if !ok1 || !ok2 {
			return pt{}, fmt.Errorf("not a point: %v", x)
		}
		return pt{int64(math.Round(t * 1000)), f}, nil
	}
	switch kind {
	case "scalar":
		p, err := point(v)
		if err != nil {
			return nil, err
		}
		out.S["scalar"] = []pt{p}
		return out, nil
	case "string":
		a, ok := v.([]any)
		if !ok || len(a) != 2 {
			return nil, fmt.Errorf("not a string: %v", v)
		}
		out.Str, _ = a[1].(string)
		return out, nil
	}
	if v == nil {
		return out, nil
	}
	list, ok := v.([]any)
	if !ok {
		return nil, fmt.Errorf("not a list: %v", v)
	}
	for _, e := range list {
		m, _ := e.(map[string]any)
		lm, _ := m["metric"].(map[string]any)
		k, ok := lblKey(lm)
		if m == nil || !ok {
			return nil, fmt.Errorf("bad entry %v", e)
		}
		if _, dup := out.S[k]; dup {
			return nil, fmt.Errorf("series %s printed twice", k)
		}
		var raw []any
		if kind == "vector" {
			raw = []any{m["value"]}
		} else {
			raw, _ = m["values"].([]any)
		}
		out.S[k] = []pt{}
		for _, x := range raw {
			p, err := point(x)
			if err != nil {
				return nil, err
			}
			out.S[k] = append(out.S[k], p)
		}
	}
	return out, nil
}

func parseYAML(s string, kind string) (*Res, error) {
	var v any
	dec := yaml.NewDecoder(strings.NewReader(s))
	if err := dec.Decode(&v); err != nil {
		return nil, err
	}
	var more any
	if err := dec.Decode(&more); err == nil {
		return nil, errors.New("more than one document")
	}
	out := &Res{S: map[string][]pt{}, Kind: kind}
	obj := func(x any) map[string]any {
		m := map[string]any{}
		if y, ok := x.(map[any]any); ok {
			for k, v := range y {
				m[fmt.Sprint(k)] = v
			}
		}
		return m
	}
	point := func(m map[string]any) (pt, error) {
		t, ok := unwrapNum(m["t"])
		f, ok2 := unwrapNum(m["v"])
		if !ok || !ok2 {
			return pt{}, fmt.Errorf("not a point: %v", m)
		}
		return pt{int64(t), f}, nil
	}
	switch kind {
	case "scalar":
		p, err := point(obj(v))
		if err != nil {
			return nil, err
		}
		out.S["scalar"] = []pt{p}
		return out, nil
	case "string":
		out.Str, _ = obj(v)["v"].(string)
		return out, nil
	}
	list, ok := v.([]any)
	if !ok {
		return nil, fmt.Errorf("not a list: %v", v)
	}
	for _, e := range list {
		m := obj(e)
		k, ok := lblKey(obj(m["metric"]))
		if !ok {
			return nil, fmt.Errorf("bad entry %v", e)
		}
		out.S[k] = []pt{}
		var raw []any
		if kind == "vector" {
			raw = []any{m["point"]}
		} else {
			raw, _ = m["points"].([]any)
		}
		for _, x := range raw {
			p, err := point(obj(x))
			if err != nil {
				return nil, err
			}
			out.S[k] = append(out.S[k], p)
		}
	}
	return out, nil
}

// promText renders a result the way the prometheus format shows it, one
// line per point or series head.
func promText(res *Res, raw map[string]labels.Labels) []string {
	var out []string
	val := func(p pt) string { return strconv.FormatFloat(p.v, 'f', -1, 64) + fmt.Sprintf(" @[%d]", p.t) }
	switch res.Kind {
	case "scalar":
		return []string{"scalar: " + val(res.S["scalar"][0])}
	case "string":
		return strings.Split(res.Str, "\n")
	}
	for _, k := range sortedKeys(res.S) {
		if res.Kind == "vector" {
			l := raw[k]
			out = append(out, strings.Split(l.Get(labels.MetricName)+l.WithoutLabels(labels.MetricName).String()+" => "+val(res.S[k][0]), "\n")...)
			continue
		}
		out = append(out, k+" =>")
		for _, p := range res.S[k] {
			out = append(out, val(p))
		}
	}
	return out
}

func oneshotMain(r *R) {
	w := &oneshot{stage: "run"}
	r.Ctx = w
	wk := r.W
	net := NewNet(r)
	k := wk.Range(1, 3)
	net.AddTargets(k, []int{2, 5, 10}[wk.Intn(3)], wk.Permille(300))
	for _, t := range net.T {
		if wk.Permille(150) {
			t.URL += []string{"?names=a,b", "/a,b;c", "?x=1&y=%2F,", "?q=a=b,c"}[wk.Intn(4)]
		}
	}
	if wk.Permille(50) {
		net.Collide()
	}
	net.FaultPm = []int{0, 100, 300}[r.F.Intn(3)]
	for _, kd := range netKinds {
		if r.F.Permille(600) {
			net.Kinds = append(net.Kinds, kd)
		}
	}
	if len(net.Kinds) == 0 {
		net.Kinds = []string{"reset-mid-body"}
	}
	net.Explicit = []int{0, 0, 200}[wk.Intn(3)]
	net.Clamp = wk.Permille(500)
	net.Special = []int{0, 100}[wk.Intn(2)]
	net.Churn = []int{0, 300}[wk.Intn(2)]
	net.Delay = []int{0, 500}[r.F.Intn(2)]
	net.DelayMax = []int{300, 4000}[r.F.Intn(2)]
	net.MinDelay = wk.Intn(30)
	// rounds: a target asked again starts a new one
	var rounds [][]*Req
	var l *launch
	net.OnReq = func(q *Req) {
		// client-go's own default without a kubeconfig is another host
		if q.Target < 0 && (l == nil || l.kube == "") {
			r.Fail("P13", "wrong-target", "%s was asked, the targets are %v", q.URL, net.URLs())
		}
		if len(rounds) > 0 {
			again := false
			for _, o := range rounds[len(rounds)-1] {
				if o.Target == q.Target {
					again = true
				}
			}
			if !again {
				rounds[len(rounds)-1] = append(rounds[len(rounds)-1], q)
				return
			}
		}
		rounds = append(rounds, []*Req{q})
	}
	out := &simOut{r: r, FailAt: -1}
	if r.F.Permille(200) {
		out.FailAt = []int{0, 1, 40, 400, 3000}[r.F.Intn(5)]
		out.FailAt += r.F.Intn(200)
		out.Short = r.F.Permille(700)
		out.Err = []error{errors.New("no space left on device"), errors.New("broken pipe"), errors.New("input/output error")}[r.F.Intn(3)]
	}
	var firstWrite time.Time
	out.OnWrite = func(p []byte) {
		if firstWrite.IsZero() {
			firstWrite = dsim.Now()
		}
	}
	flags := cli.PromQFlags{HostNames: net.URLs(), Output: []string{"json", "json", "yaml", "prometheus", "xml"}[wk.Weighted(4, 4, 4, 4, 1)]}
	if k == 1 && wk.Permille(300) {
		flags.HostNames = nil
		net.T[0].URL = "http://kube.sim/metrics"
	}
	bad := false
	switch {
	case wk.Permille(200):
		flags.List = true
	case wk.Permille(250):
		flags.PromQuery = ""
	case wk.Permille(100):
		flags.PromQuery = badQueries[wk.Intn(len(badQueries))]
		bad = flags.PromQuery != ""
	default:
		flags.PromQuery = queryPool(r, net, true)
		if wk.Permille(80) {
			flags.PromQuery = []string{`"text"`, "1+1", "time()", sentinel + "[1m]", "-" + sentinel, `vector(1)`}[wk.Intn(6)]
		}
	}
	period := time.Second
	r.Say("run %+v on %d targets", flags, k)
	if wk.Permille(350) {
		l = shell(r, flags, true)
	}
	err := l.run(r, net, out, period, time.Minute, flags)
	r.Say("returned %v after %d requests, %d bytes of output", err, len(net.Reqs), out.buf.Len())
	r.Nontriv = len(net.Reqs) > 0
	w.stage = "afterwards"
	text, reqs := out.buf.String(), len(net.Reqs)
	dsim.Sleep(20 * time.Second)
	if out.buf.Len() != len(text) {
		r.Fail("P13", "output-after-return", "%d more bytes were printed after the command had returned", out.buf.Len()-len(text))
	}
	if len(net.Reqs) != reqs {
		r.Fail("P13", "scrape-after-return", "targets were asked again after the command had returned")
	}
	w.finished = true
	for _, q := range net.Reqs {
		if q.Opened && !q.Closed {
			r.Fail("P13", "response-leak", "the response of %s (%s) was not closed", q.URL, q.Outcome)
		}
	}
	faulty := false
	for _, q := range net.Reqs {
		if !q.Good {
			faulty = true
		}
	}
	lastGood := len(rounds) > 0 && len(rounds[len(rounds)-1]) == k
	if lastGood {
		for _, q := range rounds[len(rounds)-1] {
			if !q.Good || !q.EOF {
				lastGood = false
			}
		}
	}
	clean := ansi.ReplaceAllString(text, "")
	if l != nil && l.kube != "" {
		if err == nil && flags.HostNames == nil {
			r.Fail("P13", "no-target", "without a usable kubeconfig (%s) there is no target to ask, but the command succeeded: %q", l.kube, trunc(text, 200))
		}
		if err != nil && text == "" {
			return
		}
	}
	if err != nil && text != "" && !out.Failed {
		r.Fail("P13", "output-with-error", "the command failed (%v) but printed %q", err, trunc(text, 200))
	}
	if err == nil && out.Failed {
		r.Fail("P13", "write-error-lost", "writing the output failed (%v) but the command succeeded", out.Err)
	}
	if err == nil && !lastGood {
		r.Fail("P13", "result-of-failed-scrape", "a target failed in the last scrape but the command succeeded with output %q", trunc(text, 200))
		return
	}
	if out.Failed {
		return
	}
	if flags.List {
		if err != nil {
			if !faulty {
				r.Fail("P13", "needless-error", "listing failed although nothing went wrong: %v", err)
			}
			return
		}
		want := map[string]bool{}
		for _, q := range rounds[len(rounds)-1] {
			for _, s := range q.Samples {
				var ls []string
				for _, l := range s.Labels {
					if l.Name != labels.MetricName && l.Name != labels.InstanceName {
						ls = append(ls, l.Name)
					}
				}
				sort.Strings(ls)
				want[fmt.Sprintf("--%s { %s }", s.Labels.Get(labels.MetricName), strings.Join(ls, ", "))] = true
			}
		}
		got := strings.Split(strings.TrimSuffix(clean, "\n"), "\n")
		if len(want) == 0 && clean == "" {
			got = nil
		}
		seen := map[string]bool{}
		for i, l := range got {
			if seen[l] {
				r.Fail("P13", "list-duplicate", "%q is listed twice", l)
			}
			seen[l] = true
			if !want[l] {
				r.Fail("P13", "list-wrong", "%q is listed but no target served it", l)
			}
			if i > 0 && got[i-1] > l {
				r.Fail("P13", "list-order", "%q is listed after %q", l, got[i-1])
			}
		}
		for _, l := range sortedKeys(want) {
			if !seen[l] {
				r.Fail("P13", "list-incomplete", "%q is missing from the list", l)
			}
		}
		r.Probe("list-compared")
		return
	}
	query := flags.PromQuery
	if query == "" {
		query = `{__name__=~"..*"}`
	}
	if bad || flags.Output == "xml" {
		if err == nil {
			r.Fail("P13", "bad-request-accepted", "query %q with output %q succeeded: %q", query, flags.Output, trunc(text, 200))
		}
		return
	}
	at := firstWrite
	if at.IsZero() {
		at = dsim.Now().Add(-20 * time.Second)
	}
	// what the result may be: over the last round, or over all good ones
	var cands []*Res
	var allSmp []Smp
	for i, rd := range rounds {
		var sm []Smp
		good := len(rd) == k
		for _, q := range rd {
			good = good && q.Good && q.EOF
			for _, s := range q.Samples {
				if !s.Explicit {
					s.TS = rd[0].Wall.UnixMilli()
				}
				sm = append(sm, s)
			}
		}
		if !good {
			continue
		}
		allSmp = append(allSmp, sm...)
		if i == len(rounds)-1 {
			ref := newRef(sm)
			if !ref.ties() {
				cands = append(cands, evalRef(prom.DefaultEngineOptions(time.Minute, 100000), ref, query, true, at, 0, 0))
			}
			ref = newRef(allSmp)
			if !ref.ties() {
				cands = append(cands, evalRef(prom.DefaultEngineOptions(time.Minute, 100000), ref, query, true, at, 0, 0))
			}
		}
	}
	if err != nil {
		if faulty || len(cands) == 0 {
			return
		}
		for _, c := range cands {
			if c.Err {
				return
			}
		}
		r.Fail("P13", "needless-error", "query %q failed although nothing went wrong: %v", query, err)
		return
	}
	if len(cands) == 0 {
		r.Probe("not-compared")
		return
	}
	raw := map[string]labels.Labels{}
	first := ""
	for _, c := range cands {
		if c.Err {
			first = "the query has no value: " + c.Msg
			continue
		}
		var d string
		switch flags.Output {
		case "prometheus":
			for k := range c.S {
				if l, err := parseLabels(k); err == nil {
					raw[k] = l
				}
			}
			want := promText(c, raw)
			got := strings.Split(strings.TrimSuffix(clean, "\n"), "\n")
			if clean == "\n" {
				got = nil
			}
			if c.Kind == "vector" || c.Kind == "scalar" || c.Kind == "string" {
				sort.Strings(want)
			} else {
				sort.Strings(want)
			}
			sort.Strings(got)
			d = diffLines(got, want)
		default:
			var got *Res
			var perr error
			if flags.Output == "yaml" {
				got, perr = parseYAML(clean, c.Kind)
			} else {
				got, perr = parseJSON(clean, c.Kind)
			}
			if perr != nil {
				d = "the output is not one complete result: " + perr.Error()
			} else {
				d = got.diff(c)
			}
		}
		if d == "" {
			r.Probe("result-compared")
			return
		}
		if first == "" {
			first = d
		}
	}
	r.Fail("P13", "wrong-output", "%q as %s: %s; printed %q", query, flags.Output, first, trunc(clean, 400))
}

func diffLines(got, want []string) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("line %q is missing", want[i])
		}
		if got[i] != want[i] {
			return fmt.Sprintf("%q where %q was expected", got[i], want[i])
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("unexpected line %q", got[len(want)])
	}
	return ""
}

// parseLabels reads back labels.Labels.String.
func parseLabels(s string) (labels.Labels, error) {
	m := map[string]string{}
	s = strings.TrimSuffix(strings.TrimPrefix(s, "{"), "}")
	for s != "" {
		i := strings.Index(s, "=")
		if i < 0 {
			return nil, errors.New("no =")
		}
		n := s[:i]
		q, err := strconv.QuotedPrefix(s[i+1:])
		if err != nil {
			return nil, err
		}
		v, _ := strconv.Unquote(q)
		m[n] = v
		s = strings.TrimPrefix(s[i+1+len(q):], ", ")
	}
	return labels.FromMap(m), nil
}

func oneshotPost(r *R, end string) {
	w, _ := r.Ctx.(*oneshot)
	if w != nil && !w.finished && len(r.Fails) == 0 && end != "violation" {
		r.Fails = append(r.Fails, Failure{r.Prop, "stuck:" + w.stage, fmt.Sprintf("the command did not return (%s) within %v; still waiting: %v", end, r.S.Elapsed(), r.S.AtEnd)})
	}
}
