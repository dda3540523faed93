package main

// What each property is searched with.

const (
	realProm = "promq/prom: parsing, storage, index, postings, PeriodicData (real code, instrumented at its synchronisation points)"
	realProQ = "Prometheus promql engine and parser (real code)"
	realCmd  = "cmd/metrics: MetricsCommand, sources, HTTP client use (real code)"
	stubNet  = "network and metrics targets: simulated http.RoundTripper and bodies"
	stubTime = "clock, timers and tickers: simulated"
	stubOut  = "standard output: simulated writer"
	realTerm = "promq/term: Runner, PromptView, SplitView, TextBox, GraphView, key translation (real code)"
	realEdit = "go-prompt line editor, tcell's CellBuffer, key events (real code)"
	realComp = "cmd/metrics completer, promq/autocomplete, earley parser (real code)"
	stubScr  = "terminal: simulated tcell.Screen with a bounded event queue; keyboard: simulated user"
)

var commonAssumptions = []string{
	"Goroutine switches are explored at synchronisation operations, channel operations, timer events and inserted preemption points (loop heads, statements that touch shared state); a switch inside one such stretch of code is not.",
	"Code of the standard library and of unrewritten dependencies runs for real and atomically between those points.",
}

var plans = map[string]*plan{}

// mix repeats the cheap scenarios, so that the whole command, which takes a
// hundred times longer per run, gets a fair part of the time and no more.
func mix(n int, dear string, cheap ...string) []string {
	out := []string{dear}
	for i := 0; i < n; i++ {
		out = append(out, cheap...)
	}
	if len(out)%2 == 0 { // workers take every eighth
		out = append(out, cheap[0])
	}
	return out
}

func def(id string, p *plan) { plans[id] = p }

func init() {
	prom := func(id, rule string) {
		def(id, &plan{scns: []string{"prom"}, quick: 35, deep: 600, rule: rule, real: []string{realProm, realProQ, realCmd}, stub: []string{stubNet, stubTime, stubOut}})
	}
	prom("P01", "Non-trivial: at least two scrape rounds were started.")
	def("P02", &plan{scns: []string{"prom", "store"}, quick: 35, deep: 600, rule: "Non-trivial: at least two scrape rounds were started, or samples were stored, trimmed and queried.", real: []string{realProm, realProQ, realCmd}, stub: []string{stubNet, stubTime, stubOut}})
	prom("P03", "Non-trivial: at least two scrape rounds were started.")
	prom("P04", "Non-trivial: at least two scrape rounds were started.")
	prom("P05", "Non-trivial: at least two scrape rounds were started.")
	def("P06", &plan{scns: []string{"store"}, quick: 35, deep: 600, rule: "Non-trivial: samples were stored, trimmed and queried.", real: []string{realProm, realProQ}, stub: []string{stubTime}})
	def("P07", &plan{scns: []string{"complete"}, quick: 35, deep: 600, rule: "Non-trivial: completions were asked for after an edit.", real: []string{realComp, realProm}, stub: []string{stubNet, stubTime}})
	def("P08", &plan{scns: []string{"keys", "editor", "term"}, quick: 35, deep: 600, rule: "Non-trivial: keys were entered.", real: []string{realTerm, realEdit}, stub: []string{stubScr, stubTime}})
	def("P09", &plan{scns: mix(40, "session", "term", "editor"), quick: 35, deep: 600, rule: "Non-trivial: updates were requested or keys handled.", real: []string{realTerm, realEdit, realProm, realProQ, realCmd, realComp}, stub: []string{stubScr, stubTime, stubNet}})
	def("P10", &plan{scns: mix(60, "session", "panes"), quick: 35, deep: 600, rule: "Non-trivial: several views or frames were drawn, or several operations were written.", real: []string{realTerm, realEdit, realProm, realProQ, realCmd, realComp}, stub: []string{stubScr, stubTime, stubNet}})
	def("P11", &plan{scns: mix(8, "session", "term", "keys", "editor"), quick: 35, deep: 600, rule: "Non-trivial: updates were requested, keys handled or the start failed.", real: []string{realTerm, realEdit, realProm, realProQ, realCmd, realComp}, stub: []string{stubScr, stubTime, stubNet}})
	def("P12", &plan{scns: mix(40, "session", "term", "keys"), quick: 35, deep: 600, rule: "Non-trivial: updates were requested, keys handled or the start failed.", real: []string{realTerm, realEdit, realProm, realProQ, realCmd, realComp}, stub: []string{stubScr, stubTime, stubNet}})
	def("P13", &plan{scns: []string{"oneshot"}, quick: 35, deep: 600, rule: "Non-trivial: at least one target was asked.", real: []string{realProm, realProQ, realCmd}, stub: []string{stubNet, stubTime, stubOut}})
	all := []string{realProm, realProQ, realCmd, realTerm, realEdit, realComp}
	def("P14", &plan{scns: []string{"session"}, quick: 60, deep: 600, rule: "Non-trivial: the command was started.", real: all, stub: []string{stubNet, stubTime, stubScr}})
	def("P16", &plan{scns: mix(40, "session", "panes"), quick: 35, deep: 600, rule: "Non-trivial: several views or frames were drawn, or the command was started.", real: all, stub: []string{stubNet, stubTime, stubScr}})
	def("P15", &plan{scns: mix(8, "session", "prom", "store", "complete", "term", "keys", "editor", "panes", "oneshot"), quick: 45, deep: 600, rule: "Non-trivial: as in the scenarios of the other properties.", real: all, stub: []string{stubNet, stubTime, stubScr, stubOut}})
}
