// Package vtime replaces the clock-dependent part of package time.
package vtime

import (
	"fmt"
	"time"
	"vrt"
)

// Base is the virtual instant at which every execution starts.
var Base = time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC)

func Now() time.Time                             { return Base.Add(vrt.NowD()) }
func Since(t time.Time) time.Duration            { return Now().Sub(t) }
func Until(t time.Time) time.Duration            { return t.Sub(Now()) }
func Sleep(d time.Duration)                      { vrt.Sleep(d) }
func After(d time.Duration) *vrt.Chan[time.Time] { return NewTimer(d).C }

// Ticker is time.Ticker.
type Ticker struct {
	C *vrt.Chan[time.Time]
	h vrt.TimerHandle
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{C: vrt.MakeChan[time.Time](1)}
	t.h = vrt.StartTimer(d, d, fmt.Sprintf("tick(%v)", d), func() { t.C.TrySendNow(Now()) })
	return t
}

func (t *Ticker) Stop() { t.h.Stop() }
func (t *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.h.Stop()
	t.C.Drain()
	t.h = vrt.StartTimer(d, d, "tick", func() { t.C.TrySendNow(Now()) })
}

func Tick(d time.Duration) *vrt.Chan[time.Time] {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// Timer is time.Timer.
type Timer struct {
	C *vrt.Chan[time.Time]
	h vrt.TimerHandle
	f func()
}

func NewTimer(d time.Duration) *Timer {
	t := &Timer{C: vrt.MakeChan[time.Time](1)}
	t.h = vrt.StartTimer(d, 0, fmt.Sprintf("timer(%v)", d), func() { t.C.TrySendNow(Now()) })
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.h = vrt.StartTimer(d, 0, fmt.Sprintf("afterfunc(%v)", d), func() { vrt.GoNamed("afterfunc", f) })
	return t
}

func (t *Timer) Stop() bool {
	r := t.h.Stop()
	if t.C != nil {
		t.C.Drain()
	}
	return r
}

func (t *Timer) Reset(d time.Duration) bool {
	r := t.Stop()
	if t.f != nil {
		t.h = vrt.StartTimer(d, 0, "afterfunc", func() { vrt.GoNamed("afterfunc", t.f) })
	} else {
		t.h = vrt.StartTimer(d, 0, "timer", func() { t.C.TrySendNow(Now()) })
	}
	return r
}
