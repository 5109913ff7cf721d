package vs

import "time"

var epoch = time.Unix(1_700_000_000, 0)

// TNow models time.Now.
func TNow() time.Time {
	if S == nil {
		return time.Now()
	}
	return epoch.Add(time.Duration(S.now))
}

// TSince models time.Since.
func TSince(t time.Time) time.Duration { return TNow().Sub(t) }

// TUntil models time.Until.
func TUntil(t time.Time) time.Duration { return t.Sub(TNow()) }

// Instant converts a time of this run to nanoseconds since its start.
func Instant(t time.Time) int64 { return int64(t.Sub(epoch)) }

// TSleep models time.Sleep.
func TSleep(d time.Duration) {
	if S == nil {
		time.Sleep(d)
		return
	}
	if S.abort {
		return
	}
	done := false
	S.AddTimer(S.now+int64(d), func() { done = true })
	S.point()
	Block("sleep", func() bool { return done })
}

// TTimer models time.Timer.
type TTimer struct {
	C  <-chan time.Time
	c  chan time.Time
	f  func()
	t  *timer
	d  time.Duration
	rp bool
}

func (t *TTimer) arm(d time.Duration) {
	s := S
	if d < 0 {
		d = 0
	}
	t.d = d
	t.t = s.AddTimer(s.now+int64(d), func() {
		if t.f != nil {
			s.spawn("afterfunc", true, t.f)
			return
		}
		v := s.ch(ptrOf(t.c), t.c, 1)
		if len(v.buf) < 1 {
			v.buf = append(v.buf, TNow())
		}
		if t.rp {
			t.arm(t.d)
		}
	})
}

// TNewTimer models time.NewTimer.
func TNewTimer(d time.Duration) *TTimer {
	t := &TTimer{c: make(chan time.Time, 1)}
	t.C = t.c
	t.arm(d)
	return t
}

// TNewTicker models time.NewTicker.
func TNewTicker(d time.Duration) *TTimer {
	t := &TTimer{c: make(chan time.Time, 1), rp: true}
	t.C = t.c
	t.arm(d)
	return t
}

// TTick models time.Tick.
func TTick(d time.Duration) <-chan time.Time { return TNewTicker(d).C }

// TAfter models time.After.
func TAfter(d time.Duration) <-chan time.Time {
	if S == nil {
		return time.After(d)
	}
	return TNewTimer(d).C
}

// TAfterFunc models time.AfterFunc.
func TAfterFunc(d time.Duration, f func()) *TTimer {
	t := &TTimer{f: f}
	t.arm(d)
	return t
}

// Stop models (*time.Timer).Stop.
func (t *TTimer) Stop() bool {
	if t.t == nil || t.t.off {
		return false
	}
	t.t.off = true
	return true
}

// Reset models (*time.Timer).Reset.
func (t *TTimer) Reset(d time.Duration) bool {
	r := t.Stop()
	if S != nil && !S.abort {
		t.arm(d)
	}
	return r
}
