package h

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"testing"
	"time"

	"verif.local/sim/dsim"
)

// Job is what the driver asks a worker to do.
type Job struct {
	Mode     string   `json:"mode"` // run, one, replay, shrink
	Prop     string   `json:"prop"`
	Scns     []string `json:"scns"` // weighted by repetition
	Base     uint64   `json:"base"`
	Worker   int      `json:"worker"`
	Stride   int      `json:"stride"`
	From     int      `json:"from"`
	MaxRuns  int      `json:"max_runs"`
	Seconds  float64  `json:"seconds"`
	Deep     bool     `json:"deep"`
	Seed     uint64   `json:"seed"`
	Scn      string   `json:"scn"`
	Choices  [][]int  `json:"choices"`
	Progress string   `json:"progress"`
	Out      string   `json:"out"`
	Known    []string `json:"known"` // "prop|rule" findings that are not violations
	Rule     string   `json:"rule"`
	Verify   int      `json:"verify"` // re-execute every n-th run and compare
}

type Found struct {
	Failure
	Scn     string   `json:"scenario"`
	Seed    uint64   `json:"seed"`
	Choices [][]int  `json:"choices"`
	Hash    uint64   `json:"hash"`
	End     string   `json:"end"`
	Trace   []string `json:"trace"`
	Execs   int      `json:"shrink_executions"`
}

type Report struct {
	Runs      int               `json:"runs"`
	ByScn     map[string]int    `json:"by_scn"`
	Nontriv   int               `json:"nontrivial"`
	Steps     int               `json:"steps"`
	Switches  int               `json:"switches"`
	Sim       float64           `json:"sim_seconds"`
	Wall      float64           `json:"wall_seconds"`
	Faults    map[string]int    `json:"faults"`
	Probes    map[string]int    `json:"probes"`
	Ends      map[string]int    `json:"ends"`
	Strategy  map[string]int    `json:"strategy"`
	Verified  int               `json:"verified"`
	Diverged  int               `json:"diverged"`
	DivSeeds  []uint64          `json:"div_seeds"`
	Found     []Found           `json:"found"`
	KnownHits map[string]int    `json:"known_hits"`
	KnownMsg  map[string]string `json:"known_msg"`
	Others    map[string]int    `json:"others"`
	Samples   [][]string        `json:"samples"`
	Hashes    []hashed          `json:"hashes"`
	Next      int               `json:"next"`
	One       *Found            `json:"one"`
	Races     map[string]int    `json:"races"`
}

type hashed struct {
	Scn  string `json:"scn"`
	Seed uint64 `json:"seed"`
	Hash uint64 `json:"hash"`
}

func mixSeed(base uint64, i int) uint64 {
	x := base*0x9e3779b97f4a7c15 + uint64(i+1)
	x ^= x >> 31
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	return x>>1 | 1
}

func TestWorker(t *testing.T) {
	js := os.Getenv("H_JOB")
	if js == "" {
		t.Skip("driven by cmd/check")
	}
	if js[0] == '@' {
		b, err := os.ReadFile(js[1:])
		if err != nil {
			t.Fatal(err)
		}
		js = string(b)
	}
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	var j Job
	if err := json.Unmarshal([]byte(js), &j); err != nil {
		t.Fatal(err)
	}
	rep := &Report{ByScn: map[string]int{}, Faults: map[string]int{}, Probes: map[string]int{}, Ends: map[string]int{}, Strategy: map[string]int{},
		KnownHits: map[string]int{}, KnownMsg: map[string]string{}, Others: map[string]int{}, Races: map[string]int{}}
	write := func() {
		b, _ := json.Marshal(rep)
		tmp := j.Out + ".tmp"
		os.WriteFile(tmp, b, 0o644)
		os.Rename(tmp, j.Out)
	}
	known := map[string]bool{}
	for _, k := range j.Known {
		known[k] = true
	}
	knownRules = known
	progress := func(scn string, seed uint64, i int) {
		if j.Progress != "" {
			os.WriteFile(j.Progress, []byte(fmt.Sprintf("%s %d %d", scn, seed, i)), 0o644)
		}
	}
	if j.Progress != "" {
		// lets the watchdog tell a slow run from a stuck one
		go func() {
			for {
				time.Sleep(500 * time.Millisecond)
				os.WriteFile(j.Progress+".steps", []byte(fmt.Sprint(dsim.StepCount())), 0o644)
			}
		}()
	}
	switch j.Mode {
	case "run":
		start := time.Now()
		inter := map[uint64]bool{}
		i := j.From
		for ; ; i++ {
			if j.MaxRuns > 0 && i >= j.MaxRuns || time.Since(start).Seconds() > j.Seconds {
				break
			}
			gi := i*j.Stride + j.Worker
			seed := mixSeed(j.Base, gi)
			scn := scenarios[j.Scns[gi%len(j.Scns)]]
			progress(scn.Name, seed, i)
			res := Exec(t, scn, j.Prop, seed, nil, false, j.Deep)
			rep.Runs++
			rep.ByScn[scn.Name]++
			rep.Steps += res.Steps
			rep.Switches += res.Switches
			rep.Sim += res.Sim.Seconds()
			rep.Ends[res.End]++
			rep.Strategy[fmt.Sprint(res.Strategy)]++
			for k, v := range res.Faults {
				rep.Faults[k] += v
			}
			for k, v := range res.Probes {
				rep.Probes[k] += v
			}
			if res.Nontriv {
				rep.Nontriv++
				inter[res.Inter^uint64(len(scn.Name))*0x9e3779b97f4a7c15^hashChoices(res.Choices[0])] = true
			}
			for _, o := range res.Others {
				rep.Others[o.Prop+"|"+o.Rule]++
			}
			for _, rc := range res.Races {
				rep.Races[raceRule(rc)]++
			}
			if len(rep.Samples) < 3 && res.Nontriv && len(res.Sample) > 0 {
				rep.Samples = append(rep.Samples, append([]string{fmt.Sprintf("scenario %s seed %d end %s steps %d", scn.Name, seed, res.End, res.Steps)}, res.Sample...))
			}
			if j.Verify > 0 && i%j.Verify == 0 {
				again := Exec(t, scn, j.Prop, seed, nil, false, j.Deep)
				rep.Verified++
				if len(rep.Hashes) < 20 {
					rep.Hashes = append(rep.Hashes, hashed{scn.Name, seed, res.Hash})
				}
				if again.Hash != res.Hash || again.Steps != res.Steps {
					rep.Diverged++
					rep.DivSeeds = append(rep.DivSeeds, seed)
				}
			}
			stop := false
			for k, m := range res.Known {
				rep.KnownHits[k]++
				rep.KnownMsg[k] = trunc(m, 300)
			}
			for _, f := range res.Fails {
				rep.Found = append(rep.Found, Found{Failure: f, Scn: scn.Name, Seed: seed, Choices: res.Choices, Hash: res.Hash, End: res.End})
				stop = true
			}
			if stop {
				i++
				break
			}
			if rep.Runs%200 == 0 {
				rep.Next = i + 1
				rep.Wall = time.Since(start).Seconds()
				write()
			}
		}
		rep.Next = i
		rep.Wall = time.Since(start).Seconds()
		b := make([]byte, 0, len(inter)*8)
		for k := range inter {
			b = binary.LittleEndian.AppendUint64(b, k)
		}
		os.WriteFile(j.Out+".inter", b, 0o644)
		write()
	case "one", "replay":
		progress(j.Scn, j.Seed, 0)
		ch := j.Choices
		if j.Mode == "one" {
			ch = nil
		}
		res := Exec(t, scenarios[j.Scn], j.Prop, j.Seed, ch, true, j.Deep)
		f := &Found{Scn: j.Scn, Seed: j.Seed, Choices: res.Choices, Hash: res.Hash, End: res.End, Trace: res.Log}
		if len(res.Fails) > 0 {
			f.Failure = res.Fails[0]
		}
		rep.One = f
		for _, o := range res.Others {
			rep.Others[o.Prop+"|"+o.Rule+": "+trunc(o.Msg, 300)]++
		}
		write()
	case "shrink":
		rep.One = shrink(t, &j)
		write()
	case "list":
	}
}

func hashChoices(c []int) uint64 {
	h := uint64(1469598103934665603)
	for _, v := range c {
		h = (h ^ uint64(v)) * 1099511628211
		h ^= h >> 29
	}
	return h
}

// shrink minimises the recorded choices while the same property breaks by the
// same rule: drop chunks, zero chunks, lower single values.
func shrink(t *testing.T, j *Job) *Found {
	scn := scenarios[j.Scn]
	deadline := time.Now().Add(time.Duration(j.Seconds * float64(time.Second)))
	execs := 0
	cur := j.Choices
	var curRes *Result
	try := func(c [][]int) *Result {
		execs++
		if j.Progress != "" {
			os.WriteFile(j.Progress, []byte(fmt.Sprintf("%s %d %d", j.Scn, j.Seed, execs)), 0o644)
		}
		res := Exec(t, scn, j.Prop, j.Seed, c, false, j.Deep)
		for _, f := range res.Fails {
			if f.Prop == j.Prop && f.Rule == j.Rule {
				return res
			}
			break
		}
		return nil
	}
	curRes = try(cur)
	if curRes == nil {
		return &Found{Execs: execs}
	}
	over := func() bool { return time.Now().After(deadline) }
	norm := func(res *Result, c [][]int) [][]int {
		// keep only what was consumed
		out := make([][]int, len(c))
		for i := range c {
			n := len(res.Choices[i])
			if n > len(c[i]) {
				n = len(c[i])
			}
			k := n
			for k > 0 && c[i][k-1] == 0 {
				k--
			}
			out[i] = append([]int(nil), c[i][:k]...)
		}
		return out
	}
	cur = norm(curRes, cur)
	accept := func(c [][]int) bool {
		if r := try(c); r != nil {
			curRes = r
			cur = norm(r, c)
			return true
		}
		return false
	}
	clone := func() [][]int {
		out := make([][]int, len(cur))
		for i := range cur {
			out[i] = append([]int(nil), cur[i]...)
		}
		return out
	}
	for changed := true; changed && !over(); {
		changed = false
		for _, st := range []int{2, 1, 0} {
			// whole stream
			if len(cur[st]) > 0 {
				c := clone()
				c[st] = nil
				if accept(c) {
					changed = true
				}
			}
			for size := len(cur[st]) / 2; size >= 1 && !over(); size /= 2 {
				for pos := 0; pos < len(cur[st]) && !over(); {
					end := pos + size
					if end > len(cur[st]) {
						end = len(cur[st])
					}
					c := clone()
					c[st] = append(append([]int(nil), cur[st][:pos]...), cur[st][end:]...)
					if accept(c) {
						changed = true
						continue
					}
					nz := false
					c = clone()
					for k := pos; k < end; k++ {
						if c[st][k] != 0 {
							nz = true
							c[st][k] = 0
						}
					}
					if nz && accept(c) {
						changed = true
					}
					pos = end
				}
			}
			for pos := 0; pos < len(cur[st]) && !over(); pos++ {
				for pos < len(cur[st]) && cur[st][pos] > 1 && !over() {
					c := clone()
					c[st][pos] /= 2
					if !accept(c) {
						break
					}
					changed = true
				}
			}
		}
	}
	res := Exec(t, scn, j.Prop, j.Seed, cur, true, j.Deep)
	f := &Found{Scn: j.Scn, Seed: j.Seed, Choices: cur, Hash: res.Hash, End: res.End, Trace: res.Log, Execs: execs}
	if len(res.Fails) > 0 {
		f.Failure = res.Fails[0]
	}
	return f
}
