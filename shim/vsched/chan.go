package vsched

import (
	"reflect"
	"weak"
)

// Channels are virtual: the real channel value only serves as identity and capacity.
type chst struct {
	buf    []interface{}
	cap    int
	closed bool
	recvq  []*waiter // threads blocked in a receive (unbuffered hand-off)
	sendq  []*waiter
	real   weak.Pointer[byte] // the channel; a dead one's address may be used again
}

type waiter struct {
	val   interface{}
	ok    bool
	taken bool
	sel   *selState
	idx   int
}

type selState struct {
	fired int
	w     *waiter
}

var chans = map[uintptr]*chst{}
var chansSwept = 64

func resetChans() {
	if len(chans) > 0 {
		chans = map[uintptr]*chst{}
		chansSwept = 64
	}
}

// Sweep forgets the channels that were collected and the threads that ended, as if they had never been.
func Sweep() {
	live := map[uintptr]*chst{}
	for a, o := range chans {
		if o.real.Value() != nil {
			live[a] = o
		}
	}
	chans, chansSwept = live, max(64, len(live))
	forget()
}

func chOf(c interface{}) *chst {
	v := reflect.ValueOf(c)
	if v.IsNil() {
		return nil
	}
	p := v.Pointer()
	st := chans[p]
	if st == nil || st.real.Value() == nil {
		if len(chans) >= 2*chansSwept {
			for a, o := range chans {
				if o.real.Value() == nil {
					delete(chans, a)
				}
			}
			chansSwept = max(64, len(chans))
		}
		st = &chst{cap: v.Cap(), real: weak.Make((*byte)(v.UnsafePointer()))}
		chans[p] = st
	}
	return st
}

func (st *chst) canSend() bool {
	if st == nil {
		return false
	}
	if st.closed || len(st.buf) < st.cap {
		return true
	}
	return st.pendingRecv() != nil
}

func (st *chst) canRecv() bool {
	if st == nil {
		return false
	}
	if len(st.buf) > 0 || st.closed {
		return true
	}
	return st.pendingSend() != nil
}

func (w *waiter) live() bool { return !w.taken && (w.sel == nil || w.sel.fired < 0) }

func (st *chst) pendingRecv() *waiter {
	for len(st.recvq) > 0 && !st.recvq[0].live() {
		st.recvq = st.recvq[1:]
	}
	if len(st.recvq) == 0 {
		return nil
	}
	return st.recvq[0]
}

func (st *chst) pendingSend() *waiter {
	for len(st.sendq) > 0 && !st.sendq[0].live() {
		st.sendq = st.sendq[1:]
	}
	if len(st.sendq) == 0 {
		return nil
	}
	return st.sendq[0]
}

// enqueue forgets those at the head that wait no more, as in selects that went another way.
func enqueue(q []*waiter, w *waiter) []*waiter {
	for len(q) > 0 && !q[0].live() {
		q[0] = nil
		q = q[1:]
	}
	return append(q, w)
}

func (w *waiter) fire() {
	w.taken = true
	if w.sel != nil {
		w.sel.fired = w.idx
		w.sel.w = w
	}
}

func (st *chst) doSend(v interface{}) {
	if st.closed {
		panic(plainError("send on closed channel"))
	}
	if w := st.pendingRecv(); w != nil && len(st.buf) == 0 {
		st.recvq = st.recvq[1:]
		w.val, w.ok = v, true
		w.fire()
		return
	}
	st.buf = append(st.buf, v)
}

func (st *chst) doRecv() (interface{}, bool) {
	if len(st.buf) > 0 {
		v := st.buf[0]
		st.buf = st.buf[1:]
		if w := st.pendingSend(); w != nil {
			st.sendq = st.sendq[1:]
			st.buf = append(st.buf, w.val)
			w.fire()
		}
		return v, true
	}
	if w := st.pendingSend(); w != nil {
		st.sendq = st.sendq[1:]
		w.fire()
		return w.val, true
	}
	return nil, false // closed
}

type plainError string

func (e plainError) Error() string { return string(e) }

// Send is ch <- v.
func Send[T any](ch chan<- T, v T) {
	if !active {
		select {
		case ch <- v:
		default:
		}
		return
	}
	Point("chan send")
	if killing {
		return
	}
	st := chOf(ch)
	if st == nil {
		Block("send on nil channel", func() bool { return false })
		return
	}
	if st.canSend() {
		st.doSend(v)
		return
	}
	w := &waiter{val: v}
	st.sendq = enqueue(st.sendq, w)
	Block("chan send", func() bool { return w.taken || st.closed })
	if !w.taken && !killing {
		panic(plainError("send on closed channel"))
	}
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (z T, ok bool) {
	if !active {
		select {
		case v, k := <-ch:
			return v, k
		default:
			return z, false
		}
	}
	Point("chan recv")
	if killing {
		return z, false
	}
	st := chOf(ch)
	if st == nil {
		Block("receive from nil channel", func() bool { return false })
		return z, false
	}
	if !st.canRecv() {
		w := &waiter{}
		st.recvq = enqueue(st.recvq, w)
		Block("chan recv", func() bool { return w.taken || st.closed || len(st.buf) > 0 })
		if killing {
			return z, false
		}
		if w.taken {
			return conv[T](w.val), w.ok
		}
		w.taken = true
		if !st.canRecv() {
			return z, false
		}
	}
	v, k := st.doRecv()
	if !k {
		return z, false
	}
	return conv[T](v), true
}

func conv[T any](v interface{}) (z T) {
	if v == nil {
		return z
	}
	return v.(T)
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if !active {
		return
	}
	Point("chan close")
	if killing {
		return
	}
	st := chOf(ch)
	if st == nil {
		panic(plainError("close of nil channel"))
	}
	if st.closed {
		panic(plainError("close of closed channel"))
	}
	st.closed = true
}

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	if !active {
		return 0
	}
	Point("chan len")
	if st := chOf(ch); st != nil {
		return len(st.buf)
	}
	return 0
}

// Case of a select statement.
type Case interface {
	st() *chst
	ready() bool
	do()
	enq(*selState, int)
	got(*waiter)
}

type RC[T any] struct {
	s  *chst
	V  T
	OK bool
}

func RecvCase[T any](ch <-chan T) *RC[T] { return &RC[T]{s: chOf(ch)} }

func (r *RC[T]) st() *chst   { return r.s }
func (r *RC[T]) ready() bool { return r.s.canRecv() }
func (r *RC[T]) do() {
	v, k := r.s.doRecv()
	if k {
		r.V, r.OK = conv[T](v), true
	}
}
func (r *RC[T]) enq(sel *selState, i int) {
	if r.s != nil {
		r.s.recvq = enqueue(r.s.recvq, &waiter{sel: sel, idx: i})
	}
}
func (r *RC[T]) got(w *waiter) { r.V, r.OK = conv[T](w.val), w.ok }

type SC[T any] struct {
	s *chst
	v T
}

func SendCase[T any](ch chan<- T, v T) *SC[T] { return &SC[T]{chOf(ch), v} }

func (r *SC[T]) st() *chst   { return r.s }
func (r *SC[T]) ready() bool { return r.s.canSend() }
func (r *SC[T]) do()         { r.s.doSend(r.v) }
func (r *SC[T]) enq(sel *selState, i int) {
	if r.s != nil {
		r.s.sendq = enqueue(r.s.sendq, &waiter{sel: sel, idx: i, val: r.v})
	}
}
func (r *SC[T]) got(w *waiter) {}

// Select picks a ready case; with hasDefault it returns -1 when none is ready.
func Select(hasDefault bool, cases ...Case) int {
	if !active {
		return -1
	}
	Point("select")
	if killing {
		return -1
	}
	var ready []int
	poll := func() bool {
		ready = ready[:0]
		for i, c := range cases {
			if c.ready() {
				ready = append(ready, i)
			}
		}
		return len(ready) > 0
	}
	if !poll() {
		if hasDefault {
			return -1
		}
		sel := &selState{fired: -1}
		for i, c := range cases {
			c.enq(sel, i)
		}
		Block("select", func() bool { return sel.fired >= 0 || poll() })
		if killing {
			return -1
		}
		if sel.fired >= 0 {
			cases[sel.fired].got(sel.w)
			return sel.fired
		}
		sel.fired = len(cases) // withdraw from the queues
		poll()
	}
	i := ready[choose(len(ready), 1)]
	cases[i].do()
	return i
}

func SendF[T any](ch chan<- T) func(T)            { return func(v T) { Send(ch, v) } }
func SendCaseF[T any](ch chan<- T) func(T) *SC[T] { return func(v T) *SC[T] { return SendCase(ch, v) } }
