package dsim

import (
	"fmt"
	"reflect"
	"sort"
)

func (s *Sim) cvc(ch any) *VC {
	v := s.chVC[ch]
	if v == nil {
		v = &VC{}
		s.chVC[ch] = v
	}
	return v
}

// key identifying a channel independent of its direction type
func chKey[T any](p chan T) any { return reflect.ValueOf(p).Pointer() }

type chBook struct {
	vc     VC
	closed bool // closed through dsim.Close
	seen   bool // some instrumented send happened
}

var books map[uintptr]*chBook
var booksFor *Sim

func book(s *Sim, p uintptr) *chBook {
	if booksFor != s {
		booksFor, books = s, map[uintptr]*chBook{}
	}
	b := books[p]
	if b == nil {
		b = &chBook{}
		books[p] = b
	}
	return b
}

func chPtr(ch any) uintptr { return reflect.ValueOf(ch).Pointer() }

func (s *Sim) relCh(p uintptr) {
	b := book(s, p)
	b.seen = true
	s.release(&b.vc)
}

func (s *Sim) acqCh(p uintptr, ok bool) {
	b := book(s, p)
	if !b.seen || (!ok && !b.closed) {
		if s.cur != nil && !s.aborted {
			s.acquireAll(s.cur)
		}
		return
	}
	s.acquire(b.vc)
}

// after a native blocking operation: take part in scheduling again
func (s *Sim) post(g *G, why string) {
	if s.aborted {
		// wait for teardown to reach us, so that goroutines unwind one at a time
		<-g.wake
		s.exit(g)
		return
	}
	s.park(g, gReady, why)
}

func (s *Sim) pre(g *G, why string) {
	g.state = gNative
	g.why = why
	g.spin = 0
}

// SendTo replaces ch <- v, as SendTo(ch)(v).
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		s := S
		if s == nil {
			ch <- v
			return
		}
		g := s.point("send")
		if g == nil {
			ch <- v
			return
		}
		if s.aborted {
			return
		}
		p := chPtr(ch)
		s.relCh(p)
		select {
		case ch <- v:
		default:
			s.Probe("blocked-send")
			s.pre(g, "chan send")
			select {
			case ch <- v:
				s.post(g, "sent")
			case <-s.abortCh:
				s.post(g, "abort")
			}
		}
		// a completed receive on an unbuffered channel, or freed buffer space,
		// also orders the receiver before us
		s.acquire(book(s, p).vc)
	}
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	s := S
	if s == nil {
		v, ok := <-ch
		return v, ok
	}
	g := s.point("recv")
	if g == nil {
		v, ok := <-ch
		return v, ok
	}
	var v T
	var ok bool
	if s.aborted {
		return v, false
	}
	select {
	case v, ok = <-ch:
	default:
		s.pre(g, "chan receive")
		select {
		case v, ok = <-ch:
			s.post(g, "received")
		case <-s.abortCh:
			s.post(g, "abort")
		}
	}
	p := chPtr(ch)
	s.acqCh(p, ok)
	s.release(&book(s, p).vc)
	return v, ok
}

// Close replaces close(ch).
func Close[T any](ch chan<- T) {
	s := S
	if s == nil {
		close(ch)
		return
	}
	if s.aborted {
		return
	}
	s.point("close")
	b := book(s, chPtr(ch))
	b.seen = true
	s.release(&b.vc)
	close(ch)
	b.closed = true
}

// ---- select

type Case interface {
	try() bool
	refl() reflect.SelectCase
	took(v reflect.Value, ok bool)
	ptr() uintptr
	isSend() bool
	okv() bool
}

type RecvCase[T any] struct {
	ch  <-chan T
	Val T
	Ok  bool
}

func RC[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }
func (c *RecvCase[T]) try() bool {
	select {
	case c.Val, c.Ok = <-c.ch:
		return true
	default:
		return false
	}
}
func (c *RecvCase[T]) refl() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}
func (c *RecvCase[T]) took(v reflect.Value, ok bool) {
	c.Ok = ok
	if ok {
		reflect.ValueOf(&c.Val).Elem().Set(v)
	}
}
func (c *RecvCase[T]) ptr() uintptr { return chPtr(c.ch) }
func (c *RecvCase[T]) isSend() bool { return false }
func (c *RecvCase[T]) okv() bool    { return c.Ok }

type SendCase[T any] struct {
	ch chan<- T
	v  T
}

func SC[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch: ch, v: v} }
}
func (c *SendCase[T]) try() bool {
	select {
	case c.ch <- c.v:
		return true
	default:
		return false
	}
}
func (c *SendCase[T]) refl() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(&c.v).Elem()}
}
func (c *SendCase[T]) took(reflect.Value, bool) {}
func (c *SendCase[T]) ptr() uintptr             { return chPtr(c.ch) }
func (c *SendCase[T]) isSend() bool             { return true }
func (c *SendCase[T]) okv() bool                { return true }

// Select runs a select statement; it returns the index of the chosen case, or
// -1 for the default case.
func Select(hasDefault bool, cs ...Case) int {
	s := S
	var g *G
	if s != nil {
		g = s.point("select")
	}
	if s == nil || g == nil {
		rc := make([]reflect.SelectCase, len(cs), len(cs)+1)
		for i, c := range cs {
			rc[i] = c.refl()
		}
		if hasDefault {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		if i == len(cs) {
			return -1
		}
		cs[i].took(v, ok)
		return i
	}
	if s.aborted {
		if hasDefault {
			return -1
		}
		return 0
	}
	for _, c := range cs {
		if c.isSend() && c.ptr() != 0 {
			s.relCh(c.ptr())
		}
	}
	n := len(cs)
	start := 0
	if n > 1 && s.Cfg.Strategy != 0 {
		start = s.St[Sched].Intn(n)
	}
	chosen := -1
	for k := 0; k < n; k++ {
		i := (start + k) % n
		if cs[i].try() {
			chosen = i
			break
		}
	}
	if chosen < 0 {
		if hasDefault {
			return -1
		}
		rc := make([]reflect.SelectCase, n, n+1)
		for i, c := range cs {
			rc[i] = c.refl()
		}
		rc = append(rc, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(s.abortCh)})
		s.pre(g, "select")
		i, v, ok := reflect.Select(rc)
		if i < n {
			cs[i].took(v, ok)
		}
		s.post(g, "selected")
		chosen = i
		if i == n {
			return -1
		}
	}
	c := cs[chosen]
	if c.isSend() {
		s.acquire(book(s, c.ptr()).vc)
	} else {
		s.acqCh(c.ptr(), c.okv())
		s.release(&book(s, c.ptr()).vc)
	}
	return chosen
}

// Forever replaces select{}.
func Forever() {
	s := S
	if s == nil {
		select {}
	}
	g := s.me()
	if g == nil {
		select {}
	}
	for !s.aborted {
		s.park(g, gBlocked, "select{}")
	}
}

// ---- maps

// Keys returns the keys of m in a deterministic order, rotated/shuffled by the
// schedule (Go leaves the order open).
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sortKeys(ks)
	s := S
	if s != nil && !s.aborted && s.cur != nil && len(ks) > 1 && s.Cfg.Strategy != 0 {
		// one choice: 0 sorted, 1 reversed, else a rotation
		switch c := s.St[Sched].Intn(4); c {
		case 1:
			for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
				ks[i], ks[j] = ks[j], ks[i]
			}
		case 2, 3:
			r := (len(ks) * c) / 4 % len(ks)
			ks = append(append(make([]K, 0, len(ks)), ks[r:]...), ks[:r]...)
		}
	}
	return ks
}

func sortKeys[K comparable](ks []K) {
	if len(ks) < 2 {
		return
	}
	switch x := any(ks).(type) {
	case []string:
		sort.Strings(x)
		return
	case []int:
		sort.Ints(x)
		return
	case []uint64:
		sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
		return
	}
	switch reflect.TypeOf(ks[0]).Kind() {
	case reflect.String:
		sort.Slice(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).String() < reflect.ValueOf(ks[j]).String() })
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sort.Slice(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).Int() < reflect.ValueOf(ks[j]).Int() })
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		sort.Slice(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).Uint() < reflect.ValueOf(ks[j]).Uint() })
	default:
		strs := make(map[K]string, len(ks))
		for _, k := range ks {
			strs[k] = fmt.Sprintf("%+v", k)
		}
		sort.SliceStable(ks, func(i, j int) bool { return strs[ks[i]] < strs[ks[j]] })
	}
}
