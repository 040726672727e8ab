// Package vrt is a controlled runtime for Go code whose goroutines, channels,
// locks, atomics, timers and contexts have been rewritten onto it.  One
// execution runs one thread at a time; at every visible operation the explorer
// decides which enabled transition happens next.
package vrt

import (
	"fmt"
	"reflect"
	"runtime"
	"time"
	"unsafe"
)

// S is the current execution.  Exactly one vrt thread runs at a time, so
// unsynchronised access from thread code is ordered by the hand-off channels.
var S *Sched

// ObjID names a synchronisation object within one execution.
type ObjID int

// VC is a vector clock.
type VC []uint32

func (v *VC) join(o VC) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, c := range o {
		if c > (*v)[i] {
			(*v)[i] = c
		}
	}
}

func (v VC) clone() VC { return append(VC(nil), v...) }

func (v VC) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

// Trans is one possible next step of an execution.
type Trans struct {
	Tid, Alt, Partner, Palt int // Tid==-1: the clock fires timer Alt
	Objs                    []ObjID
	What                    string
}

func (t Trans) same(o Trans) bool {
	return t.Tid == o.Tid && t.Alt == o.Alt && t.Partner == o.Partner && t.Palt == o.Palt
}

func (t Trans) dependent(o Trans) bool {
	if t.Tid < 0 || o.Tid < 0 {
		return true
	}
	if t.Tid == o.Tid || t.Tid == o.Partner {
		return true
	}
	if t.Partner >= 0 && (t.Partner == o.Tid || t.Partner == o.Partner) {
		return true
	}
	for _, a := range t.Objs {
		for _, b := range o.Objs {
			if a == b {
				return true
			}
		}
	}
	return false
}

type op interface {
	// trans appends the transitions this pending operation offers now.
	trans(s *Sched, t *thread, out []Trans) []Trans
	// exec performs one of them.
	exec(s *Sched, t *thread, tr Trans)
	String() string
}

type thread struct {
	id       int
	name     string
	wake     chan struct{}
	exited   chan struct{}
	op       op
	ready    bool // its operation has been performed; it will run next
	finished bool
	vc       VC
	panicked any
	daemon   bool
}

type timer struct {
	id     int
	when   time.Duration
	period time.Duration
	fire   func(s *Sched)
	what   string
}

// Sched is one execution.
type Sched struct {
	ex      *Explorer
	threads []*thread
	ready   []*thread
	cur     *thread
	now     time.Duration
	horizon time.Duration
	timers  []*timer
	timerID int
	objs    int
	addrObj map[unsafe.Pointer]ObjID
	objVC   map[ObjID]*VC
	shadow  map[unsafe.Pointer]*shadow
	done    chan struct{}
	killed  bool
	last    int
	steps   int
	aborted string // "", "sleep" (redundant), "steps" (horizon)
	Trace   []string
	tracing bool
	races   []string
	fails   []string
	early   int // early clock advances so far
	preempt int
	hist    []any
	main    *thread
}

// NewObj allocates an object id.
func (s *Sched) NewObj() ObjID { s.objs++; return ObjID(s.objs) }

// AddrObj returns the object id of the memory location p.
func (s *Sched) AddrObj(p unsafe.Pointer) ObjID {
	if id, ok := s.addrObj[p]; ok {
		return id
	}
	id := s.NewObj()
	s.addrObj[p] = id
	return id
}

func (s *Sched) vcOf(o ObjID) *VC {
	v := s.objVC[o]
	if v == nil {
		v = new(VC)
		s.objVC[o] = v
	}
	return v
}

// Acquire and Release are happens-before edges through object o.
func (s *Sched) Acquire(t *thread, o ObjID) { t.vc.join(*s.vcOf(o)) }
func (s *Sched) Release(t *thread, o ObjID) { s.vcOf(o).join(t.vc); t.tick() }

func (t *thread) tick() {
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id]++
}

// Go starts a new thread.
func Go(f func()) { GoNamed("", f) }

// GoNamed starts a new named thread.
func GoNamed(name string, f func()) {
	s := S
	if s == nil {
		go f()
		return
	}
	if s.killed {
		return
	}
	s.spawn(name, f)
}

// Daemon marks the current thread as one that may outlive the execution.
func Daemon() { S.cur.daemon = true }

func (s *Sched) spawn(name string, f func()) *thread {
	t := &thread{id: len(s.threads), name: name, wake: make(chan struct{}, 1), exited: make(chan struct{})}
	if t.name == "" {
		t.name = fmt.Sprintf("g%d", t.id)
	}
	if s.cur != nil {
		t.vc = s.cur.vc.clone()
		s.cur.tick()
	}
	t.tick()
	s.threads = append(s.threads, t)
	t.ready = true
	s.ready = append(s.ready, t)
	go func() {
		defer close(t.exited)
		<-t.wake
		if s.killed {
			t.finished = true
			return
		}
		normal := false
		defer func() {
			if !normal {
				// panic, or runtime.Goexit (tear-down, or the code under test)
				if r := recover(); r != nil && !s.killed {
					t.panicked = r
					buf := make([]byte, 4096)
					buf = buf[:runtime.Stack(buf, false)]
					s.fails = append(s.fails, fmt.Sprintf("panic in %s: %v", t.name, r))
					if s.tracing {
						s.Trace = append(s.Trace, string(buf))
					}
				}
			}
			t.finished = true
			if !s.killed {
				if s.tracing {
					s.Trace = append(s.Trace, fmt.Sprintf("%s ends", t.name))
				}
				s.dispatch(nil)
			}
		}()
		f()
		normal = true
	}()
	return t
}

// killedPoint reports whether the execution is being torn down.
func (s *Sched) killedPoint() bool { return s == nil || s.killed }

// point publishes the current thread's next visible operation and returns when
// it has been performed.
func (s *Sched) point(o op) {
	if s.killed {
		return
	}
	t := s.cur
	t.op = o
	t.ready = false
	s.dispatch(t)
}

// dispatch hands control on.  It returns when t (if any) may run again.
func (s *Sched) dispatch(t *thread) {
	for {
		if len(s.ready) > 0 {
			n := s.ready[0]
			s.ready = s.ready[1:]
			s.cur = n
			if n == t {
				return
			}
			n.wake <- struct{}{}
			if t == nil {
				return
			}
			<-t.wake
			if s.killed {
				runtime.Goexit()
			}
			return
		}
		if !s.step() {
			s.cur = nil
			s.done <- struct{}{}
			if t == nil {
				return
			}
			<-t.wake
			runtime.Goexit()
		}
	}
}

// step performs one transition; false means the execution is over.
func (s *Sched) step() bool {
	s.steps++
	if s.steps > s.ex.MaxSteps {
		s.aborted = "steps"
		return false
	}
	var ts []Trans
	// the last thread first: choice 0 means no context switch
	if s.last >= 0 && s.last < len(s.threads) {
		if t := s.threads[s.last]; !t.finished {
			ts = t.op.trans(s, t, ts)
		}
	}
	nlast := len(ts)
	for _, t := range s.threads {
		if t.id == s.last || t.finished {
			continue
		}
		ts = t.op.trans(s, t, ts)
	}
	nthread := len(ts)
	if len(s.timers) > 0 && (nthread == 0 || s.early < s.ex.EarlyClock) {
		min := s.timers[0].when
		for _, tm := range s.timers {
			if tm.when < min {
				min = tm.when
			}
		}
		if min <= s.horizon {
			for _, tm := range s.timers {
				if tm.when == min {
					ts = append(ts, Trans{Tid: -1, Alt: tm.id, Partner: -1, What: tm.what})
				}
			}
		}
	}
	if len(ts) == 0 {
		return false
	}
	i, ok := s.ex.chooseTrans(s, ts, nlast)
	if !ok {
		s.aborted = "sleep"
		return false
	}
	tr := ts[i]
	if s.tracing {
		s.Trace = append(s.Trace, s.describe(tr))
	}
	if tr.Tid < 0 {
		if nthread > 0 {
			s.early++
		}
		for k, tm := range s.timers {
			if tm.id == tr.Alt {
				s.now = tm.when
				if tm.period > 0 {
					tm.when += tm.period
				} else {
					s.timers = append(s.timers[:k], s.timers[k+1:]...)
				}
				tm.fire(s)
				break
			}
		}
		return true
	}
	t := s.threads[tr.Tid]
	if nlast > 0 && tr.Tid != s.last {
		s.preempt++
	}
	s.last = tr.Tid
	t.op.exec(s, t, tr)
	return true
}

// makeReady lets t run its next segment.
func (s *Sched) makeReady(t *thread) {
	t.ready = true
	s.ready = append(s.ready, t)
}

func (s *Sched) describe(tr Trans) string {
	if tr.Tid < 0 {
		return fmt.Sprintf("[%v] clock: %s", s.now, tr.What)
	}
	t := s.threads[tr.Tid]
	d := fmt.Sprintf("[%v] %s: %s", s.now, t.name, t.op.String())
	if tr.What != "" {
		d += " " + tr.What
	}
	if tr.Partner >= 0 {
		d += " with " + s.threads[tr.Partner].name
	}
	return d
}

func (s *Sched) addTimer(d, period time.Duration, what string, fire func(*Sched)) *timer {
	if d < 0 {
		d = 0
	}
	s.timerID++
	tm := &timer{id: s.timerID, when: s.now + d, period: period, fire: fire, what: what}
	s.timers = append(s.timers, tm)
	return tm
}

func (s *Sched) stopTimer(tm *timer) bool {
	for k, x := range s.timers {
		if x == tm {
			s.timers = append(s.timers[:k:k], s.timers[k+1:]...)
			return true
		}
	}
	return false
}

// simple is an operation with one way to happen.
type simple struct {
	what string
	objs []ObjID
	en   func() bool
	ex   func(s *Sched, t *thread)
}

func (o *simple) trans(s *Sched, t *thread, out []Trans) []Trans {
	if o.en != nil && !o.en() {
		return out
	}
	return append(out, Trans{Tid: t.id, Partner: -1, Objs: o.objs})
}

func (o *simple) exec(s *Sched, t *thread, tr Trans) {
	if o.ex != nil {
		o.ex(s, t)
	}
	s.makeReady(t)
}
func (o *simple) String() string { return o.what }

// Op performs a visible operation on the given objects.
func Op(what string, objs []ObjID, enabled func() bool, exec func(s *Sched, t *thread)) {
	if S == nil { // outside an execution: just do it
		if exec != nil {
			exec(&Sched{objVC: map[ObjID]*VC{}}, &thread{})
		}
		return
	}
	if S.killed {
		return
	}
	S.point(&simple{what, objs, enabled, exec})
}

// Thread is exported for the shim packages.
type Thread = thread

// Yield is a harness scheduling point that conflicts with nothing but the
// harness's own bookkeeping object.
func Yield(what string) { Op(what, []ObjID{0}, nil, nil) }

// Step is a scheduling point that commutes with everything else.
func Step(what string) { Op(what, nil, nil, nil) }

// Sleep blocks the current thread for d of virtual time.
func Sleep(d time.Duration) {
	s := S
	if s.killedPoint() {
		return
	}
	if d <= 0 {
		Op("sleep 0", nil, nil, nil)
		return
	}
	woken := false
	s.addTimer(d, 0, "wake "+s.cur.name, func(*Sched) { woken = true })
	Op(fmt.Sprintf("sleep %v", d), nil, func() bool { return woken }, nil)
}

// NowD is the virtual time since the start of the execution.
func NowD() time.Duration {
	if S == nil {
		return 0
	}
	return S.now
}

// Killed reports that the execution is over and is being torn down.
func Killed() bool { return S == nil || S.killed }

// Choose makes an environment choice among n alternatives.
func Choose(n int, what string) int {
	s := S
	if s.killedPoint() || n <= 1 {
		return 0
	}
	i := s.ex.chooseEnv(s, n)
	if s.tracing {
		s.Trace = append(s.Trace, fmt.Sprintf("      choose %s = %d of %d", what, i, n))
	}
	return i
}

// Record appends an event to the execution's history.
func Record(e any) {
	if S.killedPoint() {
		return
	}
	S.hist = append(S.hist, e)
	if S.tracing {
		S.Trace = append(S.Trace, fmt.Sprintf("      %s: %+v", S.curName(), e))
	}
}

func (s *Sched) curName() string {
	if s.cur == nil {
		return "-"
	}
	return s.cur.name
}

// Fail records a violation found by harness code while running.
func Fail(format string, args ...any) {
	if S.killedPoint() {
		return
	}
	S.fails = append(S.fails, fmt.Sprintf(format, args...))
}

// TID identifies the current thread.
func TID() int { return S.cur.id }

// SetName names the current thread.
func SetName(n string) { S.cur.name = n }

type shadow struct {
	wTid   int
	wClk   uint32
	wWhere string
	reads  VC
	atom   VC
}

func (s *Sched) sh(p unsafe.Pointer) *shadow {
	x := s.shadow[p]
	if x == nil {
		x = &shadow{wTid: -1}
		s.shadow[p] = x
	}
	return x
}

func (s *Sched) race(kind string, t *thread, where string, other int) {
	o := "?"
	if other >= 0 && other < len(s.threads) {
		o = s.threads[other].name
	}
	if len(s.races) < 4 {
		s.races = append(s.races, fmt.Sprintf("data race: %s at %s by %s, unordered with an access by %s", kind, where, t.name, o))
	}
}

func (v VC) unordered(t *thread) int {
	for i, c := range v {
		if c > 0 && i != t.id && c > t.vc.at(i) {
			return i
		}
	}
	return -1
}

func (s *Sched) access(p unsafe.Pointer, write, atomic bool, where string) {
	s.accessBy(s.cur, p, write, atomic, where)
}

func (s *Sched) accessBy(t *thread, p unsafe.Pointer, write, atomic bool, where string) {
	if t == nil || s.killed {
		return
	}
	x := s.sh(p)
	kind := "read"
	if write {
		kind = "write"
	}
	if x.wTid >= 0 && x.wTid != t.id && x.wClk > t.vc.at(x.wTid) {
		s.race(kind, t, where, x.wTid)
	}
	if write {
		if i := x.reads.unordered(t); i >= 0 {
			s.race(kind, t, where, i)
		}
	}
	if !atomic {
		if i := x.atom.unordered(t); i >= 0 {
			s.race(kind+" (plain vs atomic)", t, where, i)
		}
	}
	clk := t.vc.at(t.id)
	set := func(v *VC) {
		for len(*v) <= t.id {
			*v = append(*v, 0)
		}
		(*v)[t.id] = clk
	}
	switch {
	case atomic:
		set(&x.atom)
	case write:
		x.wTid, x.wClk, x.wWhere = t.id, clk, where
	default:
		set(&x.reads)
	}
}

// R and W record an access to *p by instrumented code and return p.
func R[T any](p *T, where string) *T {
	if s := S; s != nil && s.cur != nil && !s.killed {
		s.access(unsafe.Pointer(p), false, false, where)
	}
	return p
}

func W[T any](p *T, where string) *T {
	if s := S; s != nil && s.cur != nil && !s.killed {
		s.access(unsafe.Pointer(p), true, false, where)
	}
	return p
}

// MR and MW record an access to map m by instrumented code and return m.
func MR[M ~map[K]V, K comparable, V any](m M, where string) M {
	return mapAccess[M, K, V](m, false, where)
}
func MW[M ~map[K]V, K comparable, V any](m M, where string) M {
	return mapAccess[M, K, V](m, true, where)
}

func mapAccess[M ~map[K]V, K comparable, V any](m M, w bool, where string) M {
	if s := S; s != nil && s.cur != nil && !s.killed && m != nil {
		s.access(reflect.ValueOf(m).UnsafePointer(), w, false, where+" (map)")
	}
	return m
}

// Gosched is runtime.Gosched.
func Gosched() { Step("Gosched") }

// AtomicBy records an atomic access by t for race detection.
func AtomicBy(t *Thread, p unsafe.Pointer, write bool) {
	S.accessBy(t, p, write, true, "atomic operation")
}

// NewObjID allocates an object id (0 outside an execution).
func NewObjID() ObjID {
	if S == nil {
		return 0
	}
	return S.NewObj()
}

// Addr returns the object id of a memory location (0 outside an execution).
func Addr(p unsafe.Pointer) ObjID {
	if S == nil || S.killed {
		return 0
	}
	return S.AddrObj(p)
}
