package vrt

import (
	"fmt"
	"iter"
)

type core struct {
	id      ObjID
	cap     int
	n       int
	closed  bool
	slots   []VC // happens-before clocks of freed slots
	elems   []VC // clocks of buffered elements
	closeVC VC
}

// Chan is the controlled counterpart of a Go channel.
type Chan[T any] struct {
	c   core
	buf []T
}

// MakeChan makes a channel with the given capacity.
func MakeChan[T any](n ...int) *Chan[T] {
	k := 0
	if len(n) > 0 {
		k = n[0]
	}
	if k < 0 {
		panic("makechan: size out of range")
	}
	c := &Chan[T]{}
	c.c.cap = k
	if S != nil {
		c.c.id = S.NewObj()
	}
	return c
}

// SetObj makes operations on c conflict with object o (contexts use it).
func (c *Chan[T]) SetObj(o ObjID) { c.c.id = o }

// Case is one case of a select.
type Case interface {
	core() *core
	isSend() bool
	perform(s *Sched, t *thread, partner Case, pt *thread)
}

// SCase is a send case.
type SCase[T any] struct {
	ch  *Chan[T]
	val T
	bad bool // channel was closed
}

// RCase is a receive case; Val and Ok hold the result.
type RCase[T any] struct {
	ch  *Chan[T]
	Val T
	Ok  bool
}

// SendCase and RecvCase build select cases.
func SendCase[T any](ch *Chan[T], v T) *SCase[T] { return &SCase[T]{ch: ch, val: v} }
func RecvCase[T any](ch *Chan[T]) *RCase[T]      { return &RCase[T]{ch: ch} }

// SendCase and RecvCase as methods, so that v converts to the element type.
func (c *Chan[T]) SendCase(v T) *SCase[T] { return &SCase[T]{ch: c, val: v} }
func (c *Chan[T]) RecvCase() *RCase[T]    { return &RCase[T]{ch: c} }

// ElemOf and MakeLike make a channel of a named channel type.
func ElemOf[T any](**Chan[T]) *T              { return nil }
func MakeLike[T any](_ *T, n ...int) *Chan[T] { return MakeChan[T](n...) }

func (c *SCase[T]) core() *core {
	if c.ch == nil {
		return nil
	}
	return &c.ch.c
}
func (c *SCase[T]) isSend() bool { return true }
func (c *RCase[T]) core() *core {
	if c.ch == nil {
		return nil
	}
	return &c.ch.c
}
func (c *RCase[T]) isSend() bool { return false }

func (c *SCase[T]) perform(s *Sched, t *thread, p Case, pt *thread) {
	ch := c.ch
	if ch.c.closed {
		c.bad = true
		return
	}
	if p != nil {
		r := p.(*RCase[T])
		r.Val, r.Ok = c.val, true
		a := t.vc.clone()
		t.vc.join(pt.vc)
		pt.vc.join(a)
		t.tick()
		pt.tick()
		return
	}
	if len(ch.c.slots) > 0 {
		t.vc.join(ch.c.slots[0])
		ch.c.slots = ch.c.slots[1:]
	}
	ch.buf = append(ch.buf, c.val)
	ch.c.elems = append(ch.c.elems, t.vc.clone())
	ch.c.n++
	t.tick()
}

func (c *RCase[T]) perform(s *Sched, t *thread, p Case, pt *thread) {
	ch := c.ch
	if ch.c.n > 0 {
		c.Val, c.Ok = ch.buf[0], true
		ch.buf = ch.buf[1:]
		t.vc.join(ch.c.elems[0])
		ch.c.elems = ch.c.elems[1:]
		ch.c.n--
		ch.c.slots = append(ch.c.slots, t.vc.clone())
		t.tick()
		return
	}
	var zero T
	c.Val, c.Ok = zero, false
	t.vc.join(ch.c.closeVC)
}

type selOp struct {
	cases  []Case
	def    bool
	chosen int
	what   string
}

func (o *selOp) String() string { return o.what }

func (o *selOp) trans(s *Sched, t *thread, out []Trans) []Trans {
	immediate := false
	for i, c := range o.cases {
		k := c.core()
		if k == nil {
			continue
		}
		if c.isSend() {
			if k.closed || k.n < k.cap {
				out = append(out, Trans{Tid: t.id, Alt: i, Partner: -1, Objs: []ObjID{k.id}, What: o.altName(i)})
				immediate = true
				continue
			}
			if k.cap == 0 {
				for _, r := range s.threads {
					if r == t || r.finished {
						continue
					}
					ro, ok := r.op.(*selOp)
					if !ok || (ro.def && o.def) {
						continue
					}
					for j, rc := range ro.cases {
						if !rc.isSend() && rc.core() == k {
							out = append(out, Trans{Tid: t.id, Alt: i, Partner: r.id, Palt: j, Objs: []ObjID{k.id}, What: o.altName(i)})
						}
					}
				}
			}
			continue
		}
		if k.n > 0 || k.closed {
			out = append(out, Trans{Tid: t.id, Alt: i, Partner: -1, Objs: []ObjID{k.id}, What: o.altName(i)})
			immediate = true
		}
	}
	if o.def && !immediate {
		var objs []ObjID
		for _, c := range o.cases {
			if k := c.core(); k != nil {
				objs = append(objs, k.id)
			}
		}
		out = append(out, Trans{Tid: t.id, Alt: -1, Partner: -1, Objs: objs, What: "default"})
	}
	return out
}

func (o *selOp) altName(i int) string {
	if len(o.cases) == 1 && !o.def {
		return ""
	}
	k := "recv"
	if o.cases[i].isSend() {
		k = "send"
	}
	return fmt.Sprintf("case %d (%s ch%d)", i, k, o.cases[i].core().id)
}

func (o *selOp) exec(s *Sched, t *thread, tr Trans) {
	o.chosen = tr.Alt
	if tr.Alt < 0 {
		s.makeReady(t)
		return
	}
	c := o.cases[tr.Alt]
	if tr.Partner >= 0 {
		p := s.threads[tr.Partner]
		po := p.op.(*selOp)
		po.chosen = tr.Palt
		c.perform(s, t, po.cases[tr.Palt], p)
		s.makeReady(p)
		s.makeReady(t)
		return
	}
	c.perform(s, t, nil, nil)
	s.makeReady(t)
}

// Select performs a select statement and returns the chosen case, -1 for default.
func Select(def bool, cases ...Case) int {
	s := S
	if s.killedPoint() {
		return -1
	}
	o := &selOp{cases: cases, def: def, what: "select"}
	s.point(o)
	if s.killed {
		return -1
	}
	if o.chosen >= 0 {
		if b, ok := o.cases[o.chosen].(interface{ closedErr() bool }); ok && b.closedErr() {
			panic("send on closed channel")
		}
	}
	return o.chosen
}

func (c *SCase[T]) closedErr() bool { return c.bad }

func one(c Case, what string) {
	s := S
	if s.killedPoint() {
		return
	}
	if k := c.core(); k != nil {
		what = fmt.Sprintf("%s ch%d", what, k.id)
	} else {
		what += " nil channel"
	}
	s.point(&selOp{cases: []Case{c}, what: what})
}

// Send sends v on c.
func (c *Chan[T]) Send(v T) {
	k := SendCase(c, v)
	one(k, "send")
	if k.bad {
		panic("send on closed channel")
	}
}

// Recv receives from c.
func (c *Chan[T]) Recv() T {
	k := RecvCase(c)
	one(k, "recv")
	return k.Val
}

// Recv2 receives from c and reports whether a value was sent.
func (c *Chan[T]) Recv2() (T, bool) {
	k := RecvCase(c)
	one(k, "recv")
	return k.Val, k.Ok
}

// Close closes c.
func (c *Chan[T]) Close() {
	if S.killedPoint() {
		return
	}
	if c == nil {
		panic("close of nil channel")
	}
	bad := false
	Op(fmt.Sprintf("close ch%d", c.c.id), []ObjID{c.c.id}, nil, func(s *Sched, t *thread) {
		if c.c.closed {
			bad = true
			return
		}
		c.c.closed = true
		c.c.closeVC = t.vc.clone()
		t.tick()
	})
	if bad {
		panic("close of closed channel")
	}
}

// closeNow closes c as part of another operation.
func (c *Chan[T]) CloseNow(t *Thread) {
	if !c.c.closed {
		c.c.closed = true
		if t != nil {
			c.c.closeVC = t.vc.clone()
			t.tick()
		}
	}
}

// TrySendNow puts v into the buffer if there is room (timers use it).
func (c *Chan[T]) TrySendNow(v T) bool {
	if c.c.n < c.c.cap {
		c.buf = append(c.buf, v)
		c.c.elems = append(c.c.elems, nil)
		c.c.n++
		return true
	}
	return false
}

// Drain empties the buffer (Timer.Stop/Reset use it).
func (c *Chan[T]) Drain() { c.buf = nil; c.c.elems = nil; c.c.n = 0 }

// Len and Cap are len and cap.
func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	Op("len", []ObjID{c.c.id}, nil, nil)
	return c.c.n
}
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.c.cap
}

// All is range over the channel.
func (c *Chan[T]) All() iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := c.Recv2()
			if !ok || Killed() || !yield(v) {
				return
			}
		}
	}
}
