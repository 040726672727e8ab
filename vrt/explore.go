package vrt

import (
	"fmt"
	"time"
	"unsafe"
)

type node struct {
	env   bool
	n     int // env alternatives
	trans []Trans
	sleep []Trans
	cur   int
	cost  int // preemptions before this node
	nlast int
}

// Explorer enumerates executions depth first.
type Explorer struct {
	MaxSteps   int           // visible operations per execution
	EarlyClock int           // how often the clock may advance although threads are enabled
	Preempt    int           // preemption bound; <0: none (sleep sets are used instead)
	Horizon    time.Duration // virtual time bound
	MaxExecs   int           // cap on executions (0: none)
	Deadline   time.Time     // wall clock cap; reported as not exhaustive
	Choices    []int         // when replaying: the recorded choices

	stack     []*node
	pos       int
	replaying bool
	curSleep  []Trans

	Execs, Redundant, States, Transitions, StepLimited int
	MaxDepth                                           int
}

// Outcome describes a finished execution.
type Outcome struct {
	Blocked   []string // live threads that can never run again (daemons excluded)
	Where     []string // what each of them was waiting for
	Races     []string
	Fails     []string // panics and harness failures
	Hist      []any
	StepLimit bool
	Now       time.Duration
	Timers    []string // timers still armed
	MainDone  bool
}

func inSleep(z []Trans, t Trans) bool {
	for _, x := range z {
		if x.same(t) {
			return true
		}
	}
	return false
}

func (e *Explorer) childSleep(nd *node) []Trans {
	if e.Preempt >= 0 {
		return nil
	}
	c := nd.trans[nd.cur]
	var out []Trans
	for _, z := range nd.sleep {
		if !z.dependent(c) {
			out = append(out, z)
		}
	}
	for i := 0; i < nd.cur; i++ {
		z := nd.trans[i]
		if !inSleep(nd.sleep, z) && !z.dependent(c) {
			out = append(out, z)
		}
	}
	return out
}

func (e *Explorer) allowed(nd *node, i int) bool {
	if e.Preempt < 0 {
		return !inSleep(nd.sleep, nd.trans[i])
	}
	c := nd.cost
	if nd.nlast > 0 && i >= nd.nlast && nd.trans[i].Tid >= 0 {
		c++
	}
	return c <= e.Preempt
}

func (e *Explorer) chooseTrans(s *Sched, ts []Trans, nlast int) (int, bool) {
	if e.replaying {
		if e.pos >= len(e.Choices) {
			return 0, true
		}
		i := e.Choices[e.pos]
		e.pos++
		if i < 0 || i >= len(ts) {
			panic(fmt.Sprintf("replay diverged: choice %d of %d", i, len(ts)))
		}
		return i, true
	}
	if e.pos < len(e.stack) {
		nd := e.stack[e.pos]
		e.pos++
		if nd.env || len(nd.trans) != len(ts) || !nd.trans[nd.cur].same(ts[nd.cur]) {
			panic(fmt.Sprintf("replay diverged at depth %d: %+v vs %+v", e.pos, nd.trans, ts))
		}
		e.curSleep = e.childSleep(nd)
		return nd.cur, true
	}
	nd := &node{trans: ts, sleep: e.curSleep, cost: s.preempt, nlast: nlast}
	e.States++
	i := 0
	for i < len(ts) && !e.allowed(nd, i) {
		i++
	}
	if i == len(ts) {
		return 0, false
	}
	nd.cur = i
	e.stack = append(e.stack, nd)
	e.pos++
	e.Transitions++
	e.curSleep = e.childSleep(nd)
	return i, true
}

func (e *Explorer) chooseEnv(s *Sched, n int) int {
	if e.replaying {
		if e.pos >= len(e.Choices) {
			return 0
		}
		i := e.Choices[e.pos]
		e.pos++
		if i < 0 || i >= n {
			panic("replay diverged")
		}
		return i
	}
	if e.pos < len(e.stack) {
		nd := e.stack[e.pos]
		e.pos++
		if !nd.env || nd.n != n {
			panic(fmt.Sprintf("replay diverged at depth %d (env)", e.pos))
		}
		return nd.cur
	}
	e.stack = append(e.stack, &node{env: true, n: n})
	e.pos++
	e.States++
	e.Transitions++
	return 0
}

// next moves to the next unexplored branch; false when the space is exhausted.
func (e *Explorer) next() bool {
	for len(e.stack) > 0 {
		nd := e.stack[len(e.stack)-1]
		if nd.env {
			if nd.cur+1 < nd.n {
				nd.cur++
				e.Transitions++
				return true
			}
		} else {
			i := nd.cur + 1
			for i < len(nd.trans) && !e.allowed(nd, i) {
				i++
			}
			if i < len(nd.trans) {
				nd.cur = i
				e.Transitions++
				return true
			}
		}
		e.stack = e.stack[:len(e.stack)-1]
	}
	return false
}

func (e *Explorer) vector() []int {
	var v []int
	for _, n := range e.stack {
		v = append(v, n.cur)
	}
	return v
}

// runOnce executes body under the current choices.
func (e *Explorer) runOnce(body func(), tracing bool) (*Sched, *Outcome) {
	s := &Sched{ex: e, done: make(chan struct{}, 1), addrObj: map[unsafe.Pointer]ObjID{}, objVC: map[ObjID]*VC{},
		shadow: map[unsafe.Pointer]*shadow{}, last: -1, tracing: tracing, horizon: e.Horizon}
	if s.horizon == 0 {
		s.horizon = time.Hour
	}
	e.pos = 0
	e.curSleep = nil
	S = s
	s.main = s.spawn("main", body)
	s.dispatch(nil)
	select {
	case <-s.done:
	case <-time.After(120 * time.Second):
		panic(fmt.Sprintf("vrt: thread %s ran for 120s without reaching a visible operation", s.curName()))
	}
	out := &Outcome{Races: s.races, Fails: s.fails, Hist: s.hist, Now: s.now, StepLimit: s.aborted == "steps", MainDone: s.main.finished}
	for _, t := range s.threads {
		if !t.finished && !t.daemon {
			out.Blocked = append(out.Blocked, t.name)
			out.Where = append(out.Where, t.name+" in "+t.op.String())
		}
	}
	for _, tm := range s.timers {
		out.Timers = append(out.Timers, tm.what)
	}
	s.killed = true
	for _, t := range s.threads {
		if !t.finished {
			t.wake <- struct{}{}
		}
		<-t.exited
	}
	S = nil
	return s, out
}

// Violation is a failing execution.
type Violation struct {
	Msg     string
	Choices []int
	Trace   []string
}

// Run explores every execution of body and checks each outcome.  It stops at
// the first violation.
func (e *Explorer) Run(body func(), check func(*Outcome) error) (v *Violation, exhaustive bool) {
	if e.MaxSteps == 0 {
		e.MaxSteps = 2000
	}
	for {
		s, out := e.runOnce(body, false)
		if d := len(e.stack); d > e.MaxDepth {
			e.MaxDepth = d
		}
		if s.aborted == "sleep" {
			e.Redundant++
		} else {
			e.Execs++
			if out.StepLimit {
				e.StepLimited++
			}
			if err := Verdict(out, check); err != nil {
				ch := e.vector()
				msg := err.Error()
				var trace []string
				// the same choices must fail again, twice, before it counts
				for i := 0; i < 2; i++ {
					r := &Explorer{MaxSteps: e.MaxSteps, EarlyClock: e.EarlyClock, Preempt: e.Preempt, Horizon: e.Horizon, Choices: ch, replaying: true}
					s2, o2 := r.runOnce(body, true)
					err2 := Verdict(o2, check)
					if err2 == nil || err2.Error() != msg {
						panic(fmt.Sprintf("violation did not reproduce: %q then %v", msg, err2))
					}
					trace = s2.Trace
				}
				return &Violation{Msg: msg, Choices: ch, Trace: trace}, false
			}
		}
		if !e.next() {
			return nil, true
		}
		if e.MaxExecs > 0 && e.Execs >= e.MaxExecs {
			return nil, false
		}
		if !e.Deadline.IsZero() && (e.Execs+e.Redundant)%64 == 0 && time.Now().After(e.Deadline) {
			return nil, false
		}
	}
}

// Replay runs one recorded execution.
func (e *Explorer) Replay(body func(), check func(*Outcome) error) (error, []string) {
	if e.MaxSteps == 0 {
		e.MaxSteps = 2000
	}
	e.replaying = true
	s, out := e.runOnce(body, true)
	return Verdict(out, check), s.Trace
}

// Verdict applies the built-in oracles (panics, races) and the given one.
func Verdict(out *Outcome, check func(*Outcome) error) error {
	if len(out.Races) > 0 {
		return fmt.Errorf("%s", out.Races[0])
	}
	if len(out.Fails) > 0 {
		return fmt.Errorf("%s", out.Fails[0])
	}
	return check(out)
}
