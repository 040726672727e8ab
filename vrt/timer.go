package vrt

import "time"

// TimerHandle controls a timer.
type TimerHandle struct{ t *timer }

// StartTimer arms a timer that runs fire (which must not block) when it expires.
func StartTimer(d, period time.Duration, what string, fire func()) TimerHandle {
	if S.killedPoint() {
		return TimerHandle{}
	}
	return TimerHandle{S.addTimer(d, period, what, func(*Sched) { fire() })}
}

// Stop disarms the timer and reports whether it was armed.
func (h TimerHandle) Stop() bool {
	if S.killedPoint() || h.t == nil {
		return false
	}
	return S.stopTimer(h.t)
}
