// Package vs is a deterministic scheduler for instrumented Go code.
//
// Every goroutine of a run is registered here and exactly one of them executes
// at any moment.  Each synchronisation operation of the instrumented code
// (mutex, condition variable, channel, atomic, pool, timer, go statement) is a
// scheduling point: the scheduler picks the next goroutine from the enabled
// ones, driven by a seed.  Time is virtual and only advances when no goroutine
// can run.  A run is therefore a pure function of (program, scenario, seed).
package vs

import (
	"container/heap"
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
)

// G is a controlled goroutine.
type G struct {
	ID   int
	Name string
	Lib  bool // started by the code under test

	wake   chan struct{}
	exit   chan struct{}
	cond   func() bool // nil: runnable
	what   string
	quies  bool
	dead   bool // parked for ever (livelock)
	prio   int
	pcount int64
	streak int
	frozen int64 // number of points it stays preempted at most
}

type timer struct {
	when int64
	seq  int64
	fire func()
	off  bool
	idx  int
}

type timerHeap []*timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].when != h[j].when {
		return h[i].when < h[j].when
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x any)   { *h = append(*h, x.(*timer)) }
func (h *timerHeap) Pop() any {
	o := *h
	n := len(o)
	x := o[n-1]
	*h = o[:n-1]
	return x
}

// Config selects the scheduling strategy of a run.
type Config struct {
	Seed uint64
	// Mode: "fifo" (no preemption), "rand" (switch with probability Switch/1000
	// at every point), "pct" (priorities with Depth change points in Steps),
	// "site" (rand, and goroutines that reach one of the program points Sites
	// are preempted until nothing else can run or Freeze points have passed)
	Mode   string
	Switch int
	Depth  int
	Steps  int
	Sites  []Site
	Freeze int64
	Stmt   int // probability (per 10000) of a scheduling point before a statement
	// PLimit: number of statements a goroutine may execute without waiting
	PLimit int64
}

// Site selects the Occ-th time (from 1) that a program point is reached whose
// hash is N modulo Mod.
type Site struct {
	Mod, N uint64
	Occ    int
	Stmt   bool // statements instead of operations
}

// Sched is one run.
type Sched struct {
	cfg    Config
	gs     []*G
	cur    *G
	main   *G
	now    int64
	timers timerHeap
	seq    int64
	rng    uint64
	steps  int64
	stmt   uint32
	abort  bool
	change map[int64]bool
	nfroz  int
	lowest int
	nextID int

	chans map[uintptr]*vch

	// Livelock is called when a goroutine exceeded PLimit statements without waiting.
	Livelock func(g *G, stack string)
	Watch    func(g *G) // called when a goroutine of the code under test goes on
	// Panic is called when a goroutine panicked.
	Panic func(g *G, val any, stack string)
	// Switches counts the hand-overs of the run.
	Switches int64
	Points   int64
}

// S is the active run (nil: passthrough).
var S *Sched

var resetHooks []func()

// OnReset registers a function called at the start of every run.
func OnReset(f func()) { resetHooks = append(resetHooks, f) }

func (s *Sched) rand() uint64 {
	s.rng ^= s.rng << 13
	s.rng ^= s.rng >> 7
	s.rng ^= s.rng << 17
	return s.rng
}

// Intn draws from the schedule's generator.
func (s *Sched) Intn(n int) int { return int((s.rand() >> 11) % uint64(n)) }

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	x ^= x >> 31
	if x == 0 {
		x = 1
	}
	return x
}

// New prepares a run.
func New(cfg Config) *Sched {
	s := &Sched{cfg: cfg, rng: mix(cfg.Seed), chans: map[uintptr]*vch{}, change: map[int64]bool{}}
	if s.cfg.PLimit == 0 {
		s.cfg.PLimit = 40_000_000
	}
	if cfg.Stmt > 0 {
		s.stmt = uint32(float64(cfg.Stmt) / 10000 * float64(^uint32(0)))
	}
	if cfg.Mode == "pct" {
		n := cfg.Steps
		if n <= 0 {
			n = 500
		}
		for i := 0; i < cfg.Depth; i++ {
			s.change[int64(s.Intn(n))+1] = true
		}
	}
	return s
}

// Run executes f as the main goroutine of the run and then ends every
// goroutine that is still alive.
func (s *Sched) Run(f func()) {
	for _, h := range resetHooks {
		h()
	}
	s.main = s.newG("main", false)
	s.cur = s.main
	S = s
	f()
	s.abort = true
	for len(s.gs) > 1 {
		var g *G
		for _, x := range s.gs {
			if x != s.main {
				g = x
				break
			}
		}
		s.cur = g
		g.wake <- struct{}{}
		<-g.exit
		s.remove(g)
	}
	S = nil
}

func (s *Sched) newG(name string, lib bool) *G {
	s.nextID++
	g := &G{ID: s.nextID, Name: name, Lib: lib, wake: make(chan struct{}), exit: make(chan struct{})}
	g.prio = int(s.rand()%1000000) + 1000
	s.gs = append(s.gs, g)
	return g
}

func (s *Sched) remove(g *G) {
	for i, x := range s.gs {
		if x == g {
			s.gs = append(s.gs[:i], s.gs[i+1:]...)
			return
		}
	}
}

// Spawn starts a harness goroutine.
func Spawn(name string, f func()) *G { return S.spawn(name, false, f) }

// Go starts a goroutine of the code under test.
func Go(f func()) {
	if S == nil {
		go f()
		return
	}
	S.spawn("lib", true, f)
	S.point()
}

func (s *Sched) spawn(name string, lib bool, f func()) *G {
	g := s.newG(name, lib)
	go func() {
		<-g.wake
		normal := false
		defer func() {
			if !normal && !s.abort {
				if r := recover(); r != nil {
					st := string(debug.Stack())
					if s.Panic != nil {
						s.Panic(g, r, st)
					}
				}
			} else if s.abort {
				_ = recover()
			}
			if s.abort {
				close(g.exit)
				return
			}
			s.remove(g)
			next := s.pick()
			s.cur = next
			s.Switches++
			next.wake <- struct{}{}
		}()
		if s.abort {
			return
		}
		f()
		normal = true
	}()
	return g
}

// enabled reports whether g can run now.
func (g *G) enabled() bool {
	if g.dead || g.quies {
		return false
	}
	return g.cond == nil || g.cond()
}

// pick selects the goroutine to run next; it advances virtual time when needed.
func (s *Sched) pick() *G {
	for {
		var en []*G
		for _, g := range s.gs {
			if g.enabled() {
				en = append(en, g)
			}
		}
		if s.nfroz > 0 && len(en) > 0 {
			var run []*G
			for _, g := range en {
				if g.frozen > 0 {
					g.frozen--
				}
				if g.frozen == 0 {
					run = append(run, g)
				}
			}
			if len(run) == 0 {
				for _, g := range en {
					g.frozen = 0
				}
			} else {
				en = run
			}
		}
		if len(en) == 0 {
			if s.main.quies {
				return s.main
			}
			if len(s.timers) == 0 {
				panic("vs: main goroutine blocked outside Quiesce/Advance and nothing can run")
			}
			t := heap.Pop(&s.timers).(*timer)
			if t.off {
				continue
			}
			if t.when > s.now {
				s.now = t.when
			}
			t.off = true
			t.fire()
			continue
		}
		s.Points++
		if s.change[s.Points] && s.cur != nil {
			s.lowest--
			s.cur.prio = s.lowest
		}
		switch s.cfg.Mode {
		case "pct":
			best := en[0]
			for _, g := range en[1:] {
				if g.prio > best.prio {
					best = g
				}
			}
			if best == s.cur {
				best.streak++
				if best.streak > 5000 {
					best.streak = 0
					s.lowest--
					best.prio = s.lowest
				}
			}
			return best
		case "rand", "site":
			if s.cur != nil && s.cur.frozen == 0 && s.cur.enabled() && s.Intn(1000) >= s.cfg.Switch {
				for _, g := range en {
					if g == s.cur {
						return g
					}
				}
			}
			return en[s.Intn(len(en))]
		default: // fifo: keep the current goroutine, else the lowest id
			for _, g := range en {
				if g == s.cur {
					return g
				}
			}
			return en[0]
		}
	}
}

// resched hands the processor to the goroutine picked.
func (s *Sched) resched() {
	self := s.cur
	next := s.pick()
	if next == self {
		return
	}
	s.cur = next
	s.Switches++
	next.wake <- struct{}{}
	<-self.wake
	if s.abort {
		runtime.Goexit()
	}
}

// site preempts the running goroutine when it is at one of the chosen points.
func (s *Sched) site(stmt bool) bool {
	if !s.cur.Lib && s.cur.Name == "main" {
		return false
	}
	hit := false
	var h uint64
	for i := range s.cfg.Sites {
		t := &s.cfg.Sites[i]
		if t.Stmt != stmt || t.Occ <= 0 {
			continue
		}
		if h == 0 {
			var pcs [5]uintptr
			n := 1
			if !stmt {
				n = 5
			}
			k := runtime.Callers(4, pcs[:n])
			for _, pc := range pcs[:k] {
				h = mix(h ^ uint64(pc))
			}
		}
		if h%t.Mod == t.N {
			t.Occ--
			hit = hit || t.Occ == 0
		}
	}
	if hit {
		s.cur.frozen = s.cfg.Freeze
		s.nfroz++
	}
	return hit
}

func (s *Sched) point() {
	if s.abort {
		return
	}
	s.steps++
	if s.cfg.Mode == "site" {
		s.site(false)
	}
	if s.Watch != nil && s.cur.Lib {
		s.Watch(s.cur)
	}
	s.resched()
}

// Point is a scheduling point.
func Point() {
	if S != nil {
		S.point()
	}
}

// Block waits until cond holds.
func Block(what string, cond func() bool) {
	s := S
	if s == nil {
		if !cond() {
			panic("vs: blocking operation outside a run: " + what)
		}
		return
	}
	if s.abort {
		if !cond() {
			runtime.Goexit()
		}
		return
	}
	if cond() {
		return
	}
	g := s.cur
	g.cond = cond
	g.what = what
	g.pcount = 0
	s.resched()
	g.cond = nil
	g.what = ""
	if s.Watch != nil && g.Lib && !s.abort {
		s.Watch(g)
	}
}

// P is inserted before every statement of the code under test.
func P() {
	s := S
	if s == nil {
		return
	}
	if s.abort {
		runtime.Goexit()
	}
	g := s.cur
	g.pcount++
	if g.pcount > s.cfg.PLimit {
		s.livelocked(g)
	}
	if s.cfg.Mode == "site" && s.site(true) {
		s.resched()
	}
	if s.stmt != 0 && uint32(s.rand()>>16) < s.stmt {
		s.resched()
	}
}

func (s *Sched) livelocked(g *G) {
	if s.Livelock != nil {
		s.Livelock(g, string(debug.Stack()))
	}
	g.dead = true
	s.resched()
	select {}
}

// Quiesce lets every other goroutine run until none can, without advancing time.
func Quiesce() {
	s := S
	s.main.quies = true
	s.resched()
	s.main.quies = false
}

// Advance lets virtual time advance by d nanoseconds, firing timers on the way.
func Advance(d int64) {
	s := S
	target := s.now + d
	done := false
	s.AddTimer(target, func() { done = true })
	g := s.main
	g.cond = func() bool { return done }
	s.resched()
	g.cond = nil
	Quiesce()
}

// YieldN lets the others run for a bounded number of hand-overs.
func YieldN(n int) {
	for i := 0; i < n; i++ {
		S.forceYield()
	}
}

// forceYield runs one other enabled goroutine, if any, up to its next point.
func (s *Sched) forceYield() {
	others := false
	for _, g := range s.gs {
		if g != s.cur && g.enabled() {
			others = true
			break
		}
	}
	if !others {
		return
	}
	s.main.streak = 0
	p0 := s.Switches
	s.main.cond = func() bool { return s.Switches > p0 }
	s.resched()
	s.main.cond = nil
}

// AddTimer schedules fire at the virtual instant when.
func (s *Sched) AddTimer(when int64, fire func()) *timer {
	s.seq++
	t := &timer{when: when, seq: s.seq, fire: fire}
	heap.Push(&s.timers, t)
	return t
}

// NowNS is the virtual time in nanoseconds since the start of the run.
func NowNS() int64 { return S.now }

// Timer schedules f at now+d nanoseconds (f must not block).
func Timer(d int64, f func()) (cancel func()) {
	t := S.AddTimer(S.now+d, f)
	return func() { t.off = true }
}

// Cur returns the running goroutine.
func Cur() *G { return S.cur }

// Alive lists the live goroutines, for reports.
func (s *Sched) Alive() []string {
	var out []string
	for _, g := range s.gs {
		if g == s.main {
			continue
		}
		st := g.what
		if g.dead {
			st = "spinning"
		}
		out = append(out, fmt.Sprintf("%s#%d(%s)", g.Name, g.ID, st))
	}
	sort.Strings(out)
	return out
}

// LibAlive counts live goroutines started by the code under test.
func (s *Sched) LibAlive() int {
	n := 0
	for _, g := range s.gs {
		if g.Lib {
			n++
		}
	}
	return n
}

// Aborting reports whether the run is being torn down.
func Aborting() bool { return S != nil && S.abort }
