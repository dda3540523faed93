package dsim

import "os"

type resetEntry struct {
	pkg  string
	f    func()
	save func() func()
}

var resets []resetEntry

// OnReset registers a function that restores a package's initial state.
func OnReset(pkg string, f func(), save ...func() func()) {
	e := resetEntry{pkg: pkg, f: f}
	if len(save) > 0 {
		e.save = save[0]
	}
	resets = append(resets, e)
}

// Fresh runs f with the state of the packages matched reset to what a program
// starts with, and puts the previous state back afterwards.
func Fresh(match func(pkg string) bool, f func()) {
	var restore []func()
	for _, r := range resets {
		if !match(r.pkg) {
			continue
		}
		if r.save != nil {
			restore = append(restore, r.save())
		}
		r.f()
	}
	defer func() {
		for i := len(restore) - 1; i >= 0; i-- {
			restore[i]()
		}
	}()
	f()
}

// ResetAll restores every rewritten package's initial state, in
// initialisation order, so that a run never depends on earlier runs.
func ResetAll() {
	for _, r := range resets {
		r.f()
	}
}

// Atomic wraps the result of an atomic operation.
func Atomic[T any](v T) T { AtomicSync(); return v }

func ZeroKey[M ~map[K]V, K comparable, V any](M) K { var k K; return k }
func ZeroVal[M ~map[K]V, K comparable, V any](M) V { var v V; return v }

// Exit replaces os.Exit.
func Exit(code int) {
	s := S
	if s == nil {
		os.Exit(code)
	}
	if g := s.me(); g != nil {
		s.crash(g, "os.Exit called", nil)
		s.park(g, gReady, "exit")
	}
}

// Observer, if set, is told about construction of objects the harness needs a
// handle on.  It runs on the constructing goroutine.
var Observer func(what string, v ...any)

func Observe(what string, v ...any) {
	if Observer != nil && S != nil && !S.aborted {
		Observer(what, v...)
	}
}

// Quit ends the calling simulated goroutine.
func Quit() {
	s := S
	g := s.me()
	if g != nil {
		s.exit(g)
	}
}
