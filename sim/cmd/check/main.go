// Command check decides one property by seeded simulation of the real code.
//
//	check PROPERTY quick|thorough
//	check replay FILE
//	check build DIR
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif.local/sim/build"
)

type job map[string]any

type failure struct {
	Prop string `json:"property"`
	Rule string `json:"rule"`
	Msg  string `json:"message"`
}

type found struct {
	failure
	Scn     string   `json:"scenario"`
	Seed    uint64   `json:"seed"`
	Choices [][]int  `json:"choices"`
	Hash    uint64   `json:"hash"`
	End     string   `json:"end"`
	Trace   []string `json:"trace"`
	Execs   int      `json:"shrink_executions"`
}

type report struct {
	Runs      int               `json:"runs"`
	ByScn     map[string]int    `json:"by_scn"`
	Nontriv   int               `json:"nontrivial"`
	Steps     int               `json:"steps"`
	Switches  int               `json:"switches"`
	Sim       float64           `json:"sim_seconds"`
	Wall      float64           `json:"wall_seconds"`
	Faults    map[string]int    `json:"faults"`
	Probes    map[string]int    `json:"probes"`
	Ends      map[string]int    `json:"ends"`
	Strategy  map[string]int    `json:"strategy"`
	Verified  int               `json:"verified"`
	Diverged  int               `json:"diverged"`
	DivSeeds  []uint64          `json:"div_seeds"`
	Found     []found           `json:"found"`
	KnownHits map[string]int    `json:"known_hits"`
	KnownMsg  map[string]string `json:"known_msg"`
	Others    map[string]int    `json:"others"`
	Samples   [][]string        `json:"samples"`
	Hashes    []hashed          `json:"hashes"`
	Next      int               `json:"next"`
	One       *found            `json:"one"`
	Races     map[string]int    `json:"races"`
}

type hashed struct {
	Scn  string `json:"scn"`
	Seed uint64 `json:"seed"`
	Hash uint64 `json:"hash"`
}

// replayFile is what a violation leaves behind.
type replayFile struct {
	Property string   `json:"property"`
	Rule     string   `json:"rule"`
	Message  string   `json:"message"`
	Scenario string   `json:"scenario"`
	Seed     uint64   `json:"seed"`
	Deep     bool     `json:"deep"`
	Choices  [][]int  `json:"choices"` // workload, fault and schedule decisions; 0 everywhere else
	Hash     uint64   `json:"event_log_hash"`
	End      string   `json:"end"`
	Shrunk   bool     `json:"minimised"`
	Execs    int      `json:"shrink_executions"`
	Before   []int    `json:"choices_before"`
	After    []int    `json:"choices_after"`
	Trace    []string `json:"event_log"`
	How      string   `json:"how_to_replay"`
}

var (
	verifDir string
	scratch  string
	bin      string
	procsMu  sync.Mutex
	procs    = map[*exec.Cmd]bool{}
)

func die(code int, format string, a ...any) {
	fmt.Fprintf(os.Stderr, "check: "+format+"\n", a...)
	cleanup()
	os.Exit(code)
}

func cleanup() {
	procsMu.Lock()
	for c := range procs {
		if c.Process != nil {
			c.Process.Kill()
		}
	}
	procsMu.Unlock()
	if scratch != "" && strings.HasPrefix(scratch, os.TempDir()) {
		os.RemoveAll(scratch)
	}
}

// rssMB of one of our own workers.
func rssMB(pid int) int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(f[1])
	return n * os.Getpagesize() / (1 << 20)
}

type outcome struct {
	rep    *report
	wedged string // "": normal; else what the watchdog saw
	moving bool   // wedged, yet still taking scheduling steps: slow, not stuck
	exit   string // output of a worker that died
	scn    string
	seed   uint64
	idx    int
}

const memLimitMB = 3000

// work runs one worker process.  stall is how long a single run may take.
func work(j job, name string, stall time.Duration) *outcome {
	j["known"] = knownKeys
	j["progress"] = filepath.Join(scratch, name+".progress")
	j["out"] = filepath.Join(scratch, name+".json")
	os.Remove(j["out"].(string))
	os.Remove(j["progress"].(string))
	os.Remove(j["progress"].(string) + ".steps")
	b, _ := json.Marshal(j)
	jf := filepath.Join(scratch, name+".job") // may be too big for the environment
	if err := os.WriteFile(jf, b, 0o644); err != nil {
		return &outcome{exit: err.Error()}
	}
	c := exec.Command(bin, "-test.run", "^TestWorker$", "-test.timeout", "0")
	c.Dir = scratch
	c.Env = append(os.Environ(), "H_JOB=@"+jf, "GOTRACEBACK=all")
	var out strings.Builder
	c.Stdout, c.Stderr = &limited{w: &out}, &limited{w: &out}
	if err := c.Start(); err != nil {
		return &outcome{exit: err.Error()}
	}
	procsMu.Lock()
	procs[c] = true
	procsMu.Unlock()
	defer func() { procsMu.Lock(); delete(procs, c); procsMu.Unlock() }()
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	o := &outcome{}
	last, lastAt := "", time.Now()
	steps, stepsAt := "", time.Now()
	read := func() string { b, _ := os.ReadFile(j["progress"].(string)); return string(b) }
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	var werr error
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-tick.C:
			p := read()
			if p != last {
				last, lastAt = p, time.Now()
			}
			if b, err := os.ReadFile(j["progress"].(string) + ".steps"); err == nil && string(b) != steps {
				steps, stepsAt = string(b), time.Now()
			}
			if p != "" && time.Since(lastAt) > stall {
				o.wedged = fmt.Sprintf("one run took more than %v of real time", stall)
			} else if m := rssMB(c.Process.Pid); m > memLimitMB {
				o.wedged = fmt.Sprintf("one run used more than %d MB of memory", memLimitMB)
			}
			if o.wedged != "" {
				o.moving = time.Since(stepsAt) < stall/3
				c.Process.Kill()
				<-done
				break loop
			}
		}
	}
	if f := strings.Fields(read()); len(f) == 3 {
		o.scn = f[0]
		o.seed, _ = strconv.ParseUint(f[1], 10, 64)
		o.idx, _ = strconv.Atoi(f[2])
	}
	if rb, err := os.ReadFile(j["out"].(string)); err == nil {
		var r report
		if json.Unmarshal(rb, &r) == nil {
			o.rep = &r
		}
	}
	if o.wedged == "" && werr != nil {
		o.exit = out.String()
		if o.exit == "" {
			o.exit = werr.Error()
		}
	}
	return o
}

type limited struct {
	w *strings.Builder
	m sync.Mutex
}

func (l *limited) Write(p []byte) (int, error) {
	l.m.Lock()
	defer l.m.Unlock()
	if l.w.Len() < 1<<16 {
		l.w.Write(p)
	}
	return len(p), nil
}

type plan struct {
	scns   []string // weighted by repetition
	quick  float64  // seconds of search
	deep   float64
	rule   string
	real   []string
	stub   []string
	assume []string
}

// knownKeys are the listed findings, as property|rule.
var knownKeys []string

type knownFinding struct{ key, text string }

func readKnown() []knownFinding {
	var out []knownFinding
	f, err := os.Open(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		// known: property=<id> rule=<rule> <what fails>
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		parts := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(parts) < 3 || !strings.HasPrefix(parts[0], "property=") || !strings.HasPrefix(parts[1], "rule=") {
			die(2, "bad line in known-findings.txt: %s", l)
		}
		out = append(out, knownFinding{strings.TrimPrefix(parts[0], "property=") + "|" + strings.TrimPrefix(parts[1], "rule="), parts[2]})
	}
	return out
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: check PROPERTY quick|thorough | check replay FILE | check build DIR")
		os.Exit(2)
	}
	verifDir = os.Getenv("VERIF_DIR")
	if verifDir == "" {
		verifDir = "/verif"
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP)
	go func() { <-sig; cleanup(); os.Exit(2) }()
	start := time.Now()

	if os.Args[1] == "build" {
		r, err := build.Build(repo, filepath.Join(verifDir, "sim"), os.Args[2], os.Environ())
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		fmt.Println("built", r.Bin)
		return
	}
	var err error
	scratch, err = os.MkdirTemp("", "dsim-")
	if err != nil {
		die(2, "%v", err)
	}
	if os.Getenv("VERIF_BIN") != "" {
		bin = os.Getenv("VERIF_BIN")
	} else {
		r, err := build.Build(repo, filepath.Join(verifDir, "sim"), scratch, os.Environ())
		if err != nil {
			die(2, "building the simulated twin of %s: %v", repo, err)
		}
		bin = r.Bin
	}
	buildS := time.Since(start).Seconds()

	if os.Args[1] == "replay" {
		replay(os.Args[2])
		return
	}
	prop, tier := os.Args[1], os.Args[2]
	pl, ok := plans[prop]
	if !ok || tier != "quick" && tier != "thorough" {
		die(2, "unknown property %q or tier %q", prop, tier)
	}
	seed := uint64(1)
	if v := os.Getenv("VERIF_SEED"); v != "" {
		if n, err := strconv.ParseInt(v, 10, 64); err == nil {
			seed = uint64(n)
		}
	}
	deep := tier == "thorough"
	secs := pl.quick
	if deep {
		secs = pl.deep
	}
	if v := os.Getenv("VERIF_SECONDS"); v != "" {
		secs, _ = strconv.ParseFloat(v, 64)
	}
	kn := readKnown()
	for _, k := range kn {
		knownKeys = append(knownKeys, k.key)
	}
	fmt.Printf("check %s %s seed %d: searching %.0f s with %d workers\n", prop, tier, seed, secs, workers())

	// search
	tot := newReport()
	inter := map[uint64]bool{}
	var mu sync.Mutex
	var founds []found
	type suspect struct {
		scn, why string
		seed     uint64
		slow     bool
	}
	var suspects []suspect
	var stopAll bool
	var wg sync.WaitGroup
	var hashes []hashed
	n := workers()
	t0 := time.Now()
	for w := 0; w < n; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			from, part := 0, 0
			bad := 0
			for {
				left := secs - time.Since(t0).Seconds()
				mu.Lock()
				st := stopAll
				mu.Unlock()
				if left <= 0.5 && from > 0 || st {
					return
				}
				// a worker runs in slices, so that the first violation ends the search soon
				slice := 5.0
				if left < slice {
					slice = left
				}
				if slice < 1 {
					slice = 1
				}
				part++
				name := fmt.Sprintf("w%d", w)
				o := work(job{"mode": "run", "prop": prop, "scns": pl.scns, "base": seed, "worker": w, "stride": n, "from": from, "seconds": slice, "deep": deep, "verify": 40}, name, 30*time.Second)
				mu.Lock()
				if o.rep != nil {
					tot.add(o.rep)
					hashes = append(hashes, o.rep.Hashes...)
					founds = append(founds, o.rep.Found...)
					from = o.rep.Next
					if b, err := os.ReadFile(filepath.Join(scratch, name+".json.inter")); err == nil {
						for i := 0; i+8 <= len(b); i += 8 {
							var h uint64
							for k := 7; k >= 0; k-- {
								h = h<<8 | uint64(b[i+k])
							}
							inter[h] = true
						}
					}
					if len(o.rep.Found) > 0 {
						stopAll = true
					}
				}
				if o.wedged != "" || o.exit != "" {
					why := o.wedged
					if why == "" {
						why = "the process died: " + o.exit
					}
					if o.scn == "" {
						mu.Unlock()
						die(2, "worker failed before its first run: %s", why)
					}
					suspects = append(suspects, suspect{o.scn, why, o.seed, o.wedged != ""})
					from = o.idx + 1
					bad++
					// one slow run need not be a stuck one
					if o.exit != "" || len(suspects) >= 2 {
						stopAll = true
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	searchS := time.Since(t0).Seconds()

	// other processes must see the same executions
	cross, crossBad := 0, 0
	if len(founds) == 0 && len(suspects) == 0 {
		sort.Slice(hashes, func(i, j int) bool { return hashes[i].Seed < hashes[j].Seed })
		k := 6
		if deep {
			k = 40
		}
		if len(hashes) > k {
			hashes = hashes[:k]
		}
		var cw sync.WaitGroup
		sem := make(chan int, n)
		for i := range hashes {
			i := i
			cw.Add(1)
			sem <- 1
			go func() {
				defer func() { <-sem; cw.Done() }()
				o := work(job{"mode": "one", "prop": prop, "scn": hashes[i].Scn, "seed": hashes[i].Seed, "deep": deep}, fmt.Sprintf("x%d", i), 60*time.Second)
				mu.Lock()
				defer mu.Unlock()
				if o.rep == nil || o.rep.One == nil {
					return
				}
				cross++
				if o.rep.One.Hash != hashes[i].Hash {
					crossBad++
					fmt.Fprintf(os.Stderr, "check: WARNING: scenario %s seed %d ran differently in another process\n", hashes[i].Scn, hashes[i].Seed)
				}
			}()
		}
		cw.Wait()
	}
	if tot.Diverged > 0 {
		fmt.Fprintf(os.Stderr, "check: WARNING: %d of %d executions did not repeat: seeds %v\n", tot.Diverged, tot.Verified, tot.DivSeeds)
	}

	// decide
	path := ""
	var vio *replayFile
	var trouble []string
	slow := []string{}
	sort.Slice(founds, func(i, j int) bool { return size(founds[i].Choices) < size(founds[j].Choices) })
	for _, f := range founds {
		if v, err := confirm(prop, f, deep); err != nil {
			trouble = append(trouble, err.Error())
		} else {
			vio = v
			break
		}
	}
	if vio == nil {
		for _, s := range suspects {
			if v, err := confirmHang(prop, s.scn, s.seed, s.why, deep); err != nil && s.slow {
				slow = append(slow, err.Error())
			} else if err != nil {
				trouble = append(trouble, err.Error())
			} else {
				vio = v
				break
			}
		}
	}
	violations := 0
	evDir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(evDir, 0o755)
	if vio != nil {
		violations = 1
		path = filepath.Join(evDir, "replay-"+prop+".json")
		vio.How = "sh run.sh replay " + path
		b, _ := json.MarshalIndent(vio, "", " ")
		if err := os.WriteFile(path, b, 0o644); err != nil {
			die(2, "%v", err)
		}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": time.Since(start).Seconds(), "violations": violations,
		"assumptions": append(append([]string{}, commonAssumptions...), pl.assume...),
		"coverage": map[string]any{
			"evaluations": tot.Runs, "distinct_nontrivial": len(inter),
			"rule":            "Each case is one simulated execution: a seed draws configuration, workload, faults and every scheduling decision. " + pl.rule + " Two cases are the same when workload choices and the sequence of (goroutine, scheduling point) decisions agree.",
			"samples":         tot.Samples,
			"nontrivial_runs": tot.Nontriv, "runs_by_scenario": tot.ByScn,
			"runs_per_hour": int(float64(tot.Runs) / searchS * 3600), "seeds_per_hour": int(float64(tot.Runs) / searchS * 3600),
			"simulated_seconds": tot.Sim, "search_seconds": searchS, "build_seconds": buildS, "workers": n,
			"scheduling_steps": tot.Steps, "context_switches": tot.Switches,
			"runs_by_strategy_sequential_random_pct": tot.Strategy,
			"faults_fired":                           tot.Faults, "probes": tot.Probes, "ends": tot.Ends,
			"distinct_interleavings":    len(inter),
			"repeated_in_process":       map[string]int{"executions": tot.Verified, "diverged": tot.Diverged},
			"repeated_in_other_process": map[string]int{"executions": cross, "diverged": crossBad},
			"real_code":                 pl.real, "stubs": pl.stub,
			"known_finding_hits":          tot.KnownHits,
			"seen_about_other_properties": tot.Others,
			"races_seen":                  tot.Races,
			"runs_given_up_as_too_slow":   slow,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, prop+".json"), b, 0o644); err != nil {
		die(2, "%v", err)
	}
	for _, k := range kn {
		if strings.HasPrefix(k.key, prop+"|") {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
		}
	}
	fmt.Printf("%d runs (%d distinct non-trivial), %.0f simulated seconds, %d scheduling steps; faults %v\n", tot.Runs, len(inter), tot.Sim, tot.Steps, tot.Faults)
	if vio != nil {
		fmt.Printf("violated: %s: %s\n", vio.Rule, trunc(vio.Message, 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		cleanup()
		os.Exit(1)
	}
	for _, s := range slow {
		fmt.Fprintf(os.Stderr, "check: note: a run was given up: %s\n", s)
	}
	if len(trouble) > 0 {
		die(2, "%s", strings.Join(trouble, "\n"))
	}
	if tot.Runs == 0 {
		die(2, "no run completed")
	}
	fmt.Printf("%s held on everything explored\n", prop)
	cleanup()
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func workers() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && v > 0 {
		n = v
	}
	return n
}

func size(c [][]int) int {
	n := 0
	for _, s := range c {
		n += len(s)
	}
	return n
}

func lens(c [][]int) []int {
	var out []int
	for _, s := range c {
		out = append(out, len(s))
	}
	return out
}

// confirm minimises a violation and requires that it repeats, event for event,
// in a fresh process.
func confirm(prop string, f found, deep bool) (*replayFile, error) {
	once := func(ch [][]int, i int) (*found, error) {
		o := work(job{"mode": "replay", "prop": prop, "scn": f.Scn, "seed": f.Seed, "choices": ch, "deep": deep}, fmt.Sprintf("r%d", i), 60*time.Second)
		if o.rep == nil || o.rep.One == nil {
			return nil, fmt.Errorf("replaying %s seed %d: %s%s", f.Scn, f.Seed, o.wedged, o.exit)
		}
		return o.rep.One, nil
	}
	raw, err := once(f.Choices, 0)
	if err != nil {
		return nil, err
	}
	if raw.Rule != f.Rule || raw.Hash != f.Hash {
		return nil, fmt.Errorf("scenario %s seed %d: violation %q (%s) did not repeat in another process (now %q)", f.Scn, f.Seed, f.Rule, f.Msg, raw.Rule)
	}
	best, shrunk, execs := raw, false, 0
	best.Choices = f.Choices
	o := work(job{"mode": "shrink", "prop": prop, "scn": f.Scn, "seed": f.Seed, "choices": f.Choices, "rule": f.Rule, "deep": deep, "seconds": 25}, "shrink", 60*time.Second)
	if o.rep != nil && o.rep.One != nil && o.rep.One.Rule == f.Rule {
		again, err := once(o.rep.One.Choices, 1)
		if err == nil && again.Rule == f.Rule && again.Hash == o.rep.One.Hash {
			execs = o.rep.One.Execs
			ch := o.rep.One.Choices
			best, shrunk = again, true
			best.Choices = ch
		}
	}
	return &replayFile{Property: prop, Rule: best.Rule, Message: best.Msg, Scenario: f.Scn, Seed: f.Seed, Deep: deep, Choices: best.Choices, Hash: best.Hash, End: best.End,
		Shrunk: shrunk, Execs: execs, Before: lens(f.Choices), After: lens(best.Choices), Trace: tail(best.Trace, 400)}, nil
}

func tail(s []string, n int) []string {
	if len(s) > n {
		return append([]string{fmt.Sprintf("… %d earlier events", len(s)-n)}, s[len(s)-n:]...)
	}
	return s
}

// confirmHang decides whether a run that wedged or killed its worker does so
// again, twice, alone in a fresh process.
func confirmHang(prop, scn string, seed uint64, why string, deep bool) (*replayFile, error) {
	rule, msg := "", ""
	for i := 0; i < 2; i++ {
		o := work(job{"mode": "one", "prop": prop, "scn": scn, "seed": seed, "deep": deep}, fmt.Sprintf("h%d", i), 60*time.Second)
		switch {
		case o.moving:
			return nil, fmt.Errorf("scenario %s seed %d: %s; alone it is slow, not stuck", scn, seed, trunc(why, 2000))
		case o.wedged != "":
			rule, msg = "endless", o.wedged
		case o.exit != "":
			rule, msg = "died", trunc(o.exit, 3000)
		default:
			return nil, fmt.Errorf("scenario %s seed %d: %s; it did not happen again alone", scn, seed, trunc(why, 2000))
		}
	}
	return &replayFile{Property: prop, Rule: rule, Message: msg, Scenario: scn, Seed: seed, Deep: deep}, nil
}

func replay(file string) {
	for _, k := range readKnown() {
		knownKeys = append(knownKeys, k.key)
	}
	b, err := os.ReadFile(file)
	if err != nil {
		die(2, "%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		die(2, "%v", err)
	}
	mode := "replay"
	if rf.Choices == nil {
		mode = "one"
	}
	o := work(job{"mode": mode, "prop": rf.Property, "scn": rf.Scenario, "seed": rf.Seed, "choices": rf.Choices, "deep": rf.Deep}, "replay", 60*time.Second)
	if o.rep != nil && o.rep.One != nil {
		for _, l := range o.rep.One.Trace {
			fmt.Println(l)
		}
		f := o.rep.One
		if f.Rule == "" {
			fmt.Println("no violation on this tree")
			cleanup()
			return
		}
		fmt.Printf("%s: %s\n", f.Rule, f.Msg)
		if f.Rule == rf.Rule && f.Hash == rf.Hash {
			fmt.Println("identical to the recorded execution (event log hash agrees)")
		} else {
			fmt.Println("differs from the recorded execution (other tree?)")
		}
	} else if o.wedged != "" || o.exit != "" {
		fmt.Println(o.wedged, o.exit)
	} else {
		die(2, "the replay gave no report")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
	cleanup()
	os.Exit(1)
}

func newReport() *report {
	return &report{ByScn: map[string]int{}, Faults: map[string]int{}, Probes: map[string]int{}, Ends: map[string]int{}, Strategy: map[string]int{},
		KnownHits: map[string]int{}, KnownMsg: map[string]string{}, Others: map[string]int{}, Races: map[string]int{}}
}

func (t *report) add(r *report) {
	t.Runs += r.Runs
	t.Nontriv += r.Nontriv
	t.Steps += r.Steps
	t.Switches += r.Switches
	t.Sim += r.Sim
	t.Verified += r.Verified
	t.Diverged += r.Diverged
	t.DivSeeds = append(t.DivSeeds, r.DivSeeds...)
	if len(t.Samples) < 6 {
		t.Samples = append(t.Samples, r.Samples...)
	}
	for _, p := range [][2]map[string]int{{t.ByScn, r.ByScn}, {t.Faults, r.Faults}, {t.Probes, r.Probes}, {t.Ends, r.Ends}, {t.Strategy, r.Strategy}, {t.KnownHits, r.KnownHits}, {t.Others, r.Others}, {t.Races, r.Races}} {
		for k, v := range p[1] {
			p[0][k] += v
		}
	}
}
