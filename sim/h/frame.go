// Package h holds the simulated worlds, the reference models and the checks.
// It is compiled, together with the rewritten twin of /repo, into one test
// binary; see main_test.go for its entry point.
package h

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"verif.local/sim/dsim"
)

// Failure is one broken expectation.
type Failure struct {
	Prop string `json:"property"`
	Rule string `json:"rule"`
	Msg  string `json:"message"`
}

// R is one simulated run.
type R struct {
	S    *dsim.Sim
	W    *dsim.Stream // workload choices
	F    *dsim.Stream // fault choices
	C    *dsim.Stream // scheduler choices
	Prop string       // the property under check
	Scn  *Scenario
	Deep bool

	Fails    []Failure
	Known    map[string]string // hits of known findings
	Others   []Failure         // broken expectations that belong to other properties
	Nontriv  bool
	Sample   []string
	Ctx      any
	CrashOK  bool
	NoFaults bool
}

type Scenario struct {
	Name  string
	Conf  func(r *R)
	Main  func(r *R)
	Post  func(r *R, end string)
	Crash string // if set, panics and endless loops count against this property only
}

var scenarios = map[string]*Scenario{}

func register(s *Scenario) { scenarios[s.Name] = s }

// Fail records a broken expectation.  When it belongs to the property under
// check the run ends: nothing after the first violation is judged.
// knownRules are "prop|rule" findings that are listed and not violations.
var knownRules map[string]bool

func (r *R) Fail(prop, rule, format string, a ...any) {
	f := Failure{prop, rule, fmt.Sprintf(format, a...)}
	if prop != r.Prop {
		if len(r.Others) < 20 {
			r.Others = append(r.Others, f)
		}
		return
	}
	if knownRules[prop+"|"+rule] {
		if r.Known == nil {
			r.Known = map[string]string{}
		}
		r.Known[prop+"|"+rule] = f.Msg
		return
	}
	if len(r.Fails) > 0 {
		return
	}
	r.Fails = append(r.Fails, f)
	r.S.Note("VIOLATION", prop, rule, f.Msg)
	r.S.Stop("violation")
}

func (r *R) Probe(n string) { r.S.Probe(n) }

// Add a line to the sample written into the evidence.
func (r *R) Say(format string, a ...any) {
	if len(r.Sample) < 40 {
		r.Sample = append(r.Sample, fmt.Sprintf("t=%v ", r.S.Elapsed())+fmt.Sprintf(format, a...))
	}
	r.S.Note("say", fmt.Sprintf(format, a...))
}

// Result of one execution.
type Result struct {
	Scn      string
	Seed     uint64
	Fails    []Failure
	Known    map[string]string // hits of known findings
	Others   []Failure
	End      string
	Hash     uint64
	Inter    uint64
	Steps    int
	Switches int
	Sim      time.Duration
	Faults   map[string]int
	Probes   map[string]int
	Choices  [][]int
	Log      []string
	Nontriv  bool
	Sample   []string
	Strategy int
	Races    []string
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// crashRule names a crash by its message class and innermost program frame, so
// that a different crash is a different finding.
func crashRule(msg string) string {
	lines := strings.Split(msg, "\n")
	head := lines[0]
	kind := "panic"
	if strings.HasPrefix(head, "endless loop") {
		kind = "endless-loop"
	}
	for _, l := range lines[1:] {
		l = strings.TrimSpace(l)
		if strings.Contains(l, "instrumentation-tools/") {
			f := strings.Fields(l)[0]
			f = f[strings.LastIndex(f, "/")+1:]
			return kind + ":" + f
		}
	}
	return kind
}

// Exec performs one run.
func Exec(t *testing.T, scn *Scenario, prop string, seed uint64, replay [][]int, trace, deep bool) *Result {
	res := &Result{Scn: scn.Name, Seed: seed}
	synctest.Test(t, func(t *testing.T) {
		dsim.ResetAll()
		resetWorld()
		s := dsim.New(dsim.Config{Seed: seed, Replay: replay, Trace: trace, Horizon: time.Hour})
		r := &R{S: s, W: s.St[dsim.Work], F: s.St[dsim.Fault], C: s.St[dsim.Sched], Prop: prop, Scn: scn, Deep: deep}
		r.schedConf()
		if scn.Conf != nil {
			scn.Conf(r)
		}
		end := s.Run(func() { scn.Main(r) })
		if len(r.Fails) == 0 {
			if len(s.Crashes) > 0 {
				if scn.Crash == "" || scn.Crash == prop {
					r.Fails = append(r.Fails, Failure{prop, crashRule(s.Crashes[0]), s.Crashes[0]})
				} else {
					r.Others = append(r.Others, Failure{scn.Crash, crashRule(s.Crashes[0]), s.Crashes[0]})
				}
			} else if scn.Post != nil {
				scn.Post(r, end)
			}
		}
		if prop == "P15" && len(r.Fails) == 0 && len(s.Races) > 0 {
			r.Fails = append(r.Fails, Failure{prop, "race:" + raceRule(s.Races[0]), s.Races[0]})
		}
		res.Fails, res.Others, res.End, res.Known = r.Fails, r.Others, end, r.Known
		res.Hash, res.Inter, res.Steps, res.Switches = s.Hash, s.Inter, s.Steps, s.Switches
		res.Sim = time.Since(simStart(s))
		res.Faults, res.Probes, res.Log = s.Faults, s.Probes, s.Log
		res.Nontriv = r.Nontriv
		res.Sample = r.Sample
		res.Strategy = s.Cfg.Strategy
		res.Races = s.Races
		for _, st := range s.St {
			res.Choices = append(res.Choices, st.Rec)
		}
	})
	return res
}

func simStart(s *dsim.Sim) time.Time { return s.Start() }

func raceRule(m string) string {
	// "write of A by g1(..) unordered with read of B by g2(..)"
	f := strings.Fields(m)
	var out []string
	for i := 0; i+1 < len(f); i++ {
		if f[i] == "of" {
			out = append(out, f[i+1])
		}
	}
	sort.Strings(out)
	return strings.Join(out, "|")
}

// schedConf draws the scheduling regime of the run (swarm testing: each run
// gets its own mix).
func (r *R) schedConf() {
	c := &r.S.Cfg
	switch r.C.Weighted(2, 13, 5) {
	case 0:
		c.Strategy = 0
	case 1:
		c.Strategy = 1
		c.Gap = []int{300, 100, 40, 15, 6, 3, 1}[r.C.Intn(7)]
	case 2:
		c.Strategy = 2
		c.Gap = []int{50, 10, 200}[r.C.Intn(3)]
		c.PCTDepth = 1 + r.C.Intn(6)
	}
	c.RaceOn = r.Prop == "P15"
}

// Stalls makes goroutines stop for a while at random preemption points (a
// slow or suspended machine).
func (r *R) Stalls(pm int, max time.Duration) {
	if r.F.Permille(250) {
		r.S.Cfg.StallPm = []int{2, 10, 40}[r.F.Intn(3)] * pm / 10
		r.S.Cfg.StallMax = max
		if r.S.Cfg.StallPm < 1 {
			r.S.Cfg.StallPm = 1
		}
	}
}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }
