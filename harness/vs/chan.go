package vs

import (
	"runtime"
	"unsafe"
)

// Channels of the code under test are replaced by a model kept here: the native
// channel value is only an identity.

type sendWait struct {
	v     any
	taken bool
	err   bool
}

type vch struct {
	keep    any
	cap     int
	buf     []any
	closed  bool
	sendq   []*sendWait
	waiting int // receivers waiting
}

func ptrOf[C any](ch C) uintptr { return *(*uintptr)(unsafe.Pointer(&ch)) }

func (s *Sched) ch(p uintptr, keep any, c int) *vch {
	if p == 0 {
		return nil
	}
	v, ok := s.chans[p]
	if !ok {
		v = &vch{keep: keep, cap: c}
		s.chans[p] = v
	}
	return v
}

func (v *vch) canRecv() bool {
	return v != nil && (len(v.buf) > 0 || len(v.sendq) > 0 || v.closed)
}

func (v *vch) canSend() bool {
	return v != nil && (v.closed || len(v.buf) < v.cap || (v.cap == 0 && v.waiting > len(v.buf)))
}

func (v *vch) doRecv() (any, bool) {
	if len(v.buf) > 0 {
		x := v.buf[0]
		v.buf = v.buf[1:]
		if len(v.sendq) > 0 && v.cap > 0 {
			w := v.sendq[0]
			v.sendq = v.sendq[1:]
			w.taken = true
			v.buf = append(v.buf, w.v)
		}
		return x, true
	}
	if len(v.sendq) > 0 {
		w := v.sendq[0]
		v.sendq = v.sendq[1:]
		w.taken = true
		return w.v, true
	}
	return nil, false // closed
}

func never() bool { return false }

// Send models ch <- v; used as Send(ch)(v).
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		s := S
		if s == nil {
			ch <- v
			return
		}
		if s.abort {
			return
		}
		s.point()
		c := s.ch(ptrOf(ch), ch, cap(ch))
		if c == nil {
			Block("send on nil channel", never)
			return
		}
		if c.closed {
			panic("send on closed channel")
		}
		if len(c.buf) < c.cap {
			c.buf = append(c.buf, v)
			return
		}
		w := &sendWait{v: v}
		c.sendq = append(c.sendq, w)
		Block("chan send", func() bool { return w.taken || c.closed })
		if !w.taken {
			panic("send on closed channel")
		}
	}
}

// Recv models <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 models v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	s := S
	if s == nil {
		v, ok := <-ch
		return v, ok
	}
	var zero T
	if s.abort {
		runtime.Goexit()
	}
	s.point()
	c := s.ch(ptrOf(ch), ch, cap(ch))
	if c == nil {
		Block("receive on nil channel", never)
		return zero, false
	}
	if !c.canRecv() {
		c.waiting++
		Block("chan receive", c.canRecv)
		c.waiting--
	}
	x, ok := c.doRecv()
	if !ok || x == nil {
		return zero, ok
	}
	return x.(T), true
}

// Close models close(ch).
func Close[T any](ch chan<- T) {
	s := S
	if s == nil {
		close(ch)
		return
	}
	if s.abort {
		return
	}
	s.point()
	c := s.ch(ptrOf(ch), ch, cap(ch))
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
}

// Len models len(ch) for channels.
func Len[T any](ch <-chan T) int {
	if S == nil {
		return len(ch)
	}
	c := S.ch(ptrOf(ch), ch, cap(ch))
	if c == nil {
		return 0
	}
	if len(c.buf) > c.cap {
		return c.cap
	}
	return len(c.buf)
}

// LenB is Len for bidirectional channels.
func LenB[T any](ch chan T) int { return Len((<-chan T)(ch)) }

// SelCase is one communication clause of a select statement.
type SelCase interface {
	ready() bool
	do()
	wait(d int)
}

// RecvCase is a receive clause.
type RecvCase[T any] struct {
	c  *vch
	V  T
	OK bool
}

func (r *RecvCase[T]) ready() bool { return r.c.canRecv() }
func (r *RecvCase[T]) wait(d int) {
	if r.c != nil {
		r.c.waiting += d
	}
}
func (r *RecvCase[T]) do() {
	x, ok := r.c.doRecv()
	r.OK = ok
	if ok && x != nil {
		r.V = x.(T)
	}
}

// RC builds a receive clause.
func RC[T any](ch <-chan T) *RecvCase[T] {
	if S == nil {
		panic("vs: select outside a run")
	}
	return &RecvCase[T]{c: S.ch(ptrOf(ch), ch, cap(ch))}
}

type sendCase struct {
	c *vch
	v any
}

func (r *sendCase) ready() bool { return r.c.canSend() }
func (r *sendCase) wait(int)    {}
func (r *sendCase) do() {
	if r.c.closed {
		panic("send on closed channel")
	}
	r.c.buf = append(r.c.buf, r.v)
}

// SC builds a send clause; used as SC(ch)(v).
func SC[T any](ch chan<- T) func(T) SelCase {
	if S == nil {
		panic("vs: select outside a run")
	}
	c := S.ch(ptrOf(ch), ch, cap(ch))
	return func(v T) SelCase { return &sendCase{c: c, v: v} }
}

// Select performs a select statement and returns the index of the clause taken
// (-1: default).
func Select(hasDefault bool, cases ...SelCase) int {
	s := S
	if s.abort {
		runtime.Goexit()
	}
	s.point()
	var idx []int
	scan := func() bool {
		idx = idx[:0]
		for i, c := range cases {
			if c.ready() {
				idx = append(idx, i)
			}
		}
		return len(idx) > 0
	}
	if !scan() {
		if hasDefault {
			return -1
		}
		for _, c := range cases {
			c.wait(1)
		}
		Block("select", scan)
		for _, c := range cases {
			c.wait(-1)
		}
	}
	i := idx[s.Intn(len(idx))]
	cases[i].do()
	return i
}
