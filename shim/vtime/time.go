// Package vtime replaces time: the clock is virtual.
package vtime

import (
	"time"
	"vshim/vsched"
)

func Now() Time { return vsched.Epoch.Add(time.Duration(vsched.Now())) }

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration)      { vsched.Sleep(int64(d)) }

type timerSt struct {
	stopped bool
	fired   bool
	gen     int
}

type Timer struct {
	C  <-chan Time
	c  chan Time
	f  func()
	st *timerSt
}

func (t *Timer) start(d Duration) {
	st := &timerSt{}
	t.st = st
	c, f := t.c, t.f
	vsched.Go("timer", func() {
		vsched.Sleep(int64(d))
		if st.stopped {
			return
		}
		st.fired = true
		if f != nil {
			f()
			return
		}
		vsched.Select(true, vsched.SendCase[Time](c, Now()))
	})
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	vsched.Point("Timer.Stop")
	was := !t.st.fired && !t.st.stopped
	t.st.stopped = true
	return was
}

func (t *Timer) Reset(d Duration) bool {
	was := t.Stop()
	t.start(d)
	return was
}

type Ticker struct {
	C  <-chan Time
	c  chan Time
	st *timerSt
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c}
	t.start(d)
	return t
}

func (t *Ticker) start(d Duration) {
	st := &timerSt{}
	t.st = st
	c := t.c
	vsched.Go("ticker", func() {
		for !st.stopped {
			vsched.Sleep(int64(d))
			if st.stopped {
				return
			}
			vsched.Select(true, vsched.SendCase[Time](c, Now()))
		}
	})
}

func (t *Ticker) Stop()            { t.st.stopped = true }
func (t *Ticker) Reset(d Duration) { t.st.stopped = true; t.start(d) }
func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
