package main

import (
	"hash/fnv"
	"math/rand"

	"github.com/QuangTung97/go-memcache/zzverif/vs"
)

func subSeed(fam string, seed int64, idx int) int64 {
	h := fnv.New64a()
	h.Write([]byte(fam))
	x := int64(h.Sum64()>>1) ^ seed*0x9e3779b97f4a7 ^ int64(idx)*0x100000001b3
	if x < 0 {
		x = -x
	}
	return x
}

type gen struct {
	*rand.Rand
	c int
}

func newGen(fam string, seed int64, idx int) *gen {
	return &gen{Rand: rand.New(rand.NewSource(subSeed(fam, seed, idx)))}
}

func (g *gen) id() int { g.c++; return g.c }

func (g *gen) pick(xs ...int) int { return xs[g.Intn(len(xs))] }

func (g *gen) chance(p int) bool { return g.Intn(100) < p }

func sched(g *gen, idx int) vs.Config {
	c := vs.Config{Seed: uint64(g.Int63()), PLimit: 3_000_000}
	switch idx % 5 {
	case 4:
		c.Mode, c.Switch, c.Freeze = "site", g.pick(0, 0, 100, 500, 1000), int64(g.pick(1_000_000, 1_000_000, 1_000_000, 10, 60))
		for i := 0; i < 1+g.Intn(2); i++ {
			t := vs.Site{Mod: 61, Occ: 1}
			for t.Occ < 8 && g.chance(40) {
				t.Occ++
			}
			if g.chance(25) {
				t.Mod, t.Stmt = 127, true
			}
			t.N = uint64(g.Int63()) % t.Mod
			c.Sites = append(c.Sites, t)
		}
	case 0:
		c.Mode = "fifo"
		if g.chance(50) {
			c.Mode, c.Switch = "rand", 1000
		}
	case 1:
		c.Mode, c.Switch = "rand", g.pick(50, 200, 500)
		c.Stmt = g.pick(0, 0, 50, 300)
	default:
		c.Mode, c.Depth, c.Steps = "pct", 1+g.Intn(4), g.pick(60, 150, 400, 1000)
		c.Stmt = g.pick(0, 0, 20, 100)
	}
	return c
}

func base(g *gen, fam string) *Scn {
	s := &Scn{Family: fam, Slots: 1, Lim: 500, Batch: 100, Buf: 0, Retry: 2000, RTO: 1000, WTO: 700, Health: 100_000_000,
		Fin: 60_000, Default: okPlan(), Omit: map[string]bool{}, CTmo: 10_000}
	s.Addr = []string{"fake:11211", "10.1.2.3:11212", "cache.example:1"}[g.Intn(3)]
	return s
}

// actor builds a random client program over its own pipelines.
func (g *gen) actor(pipe int, sessions, maxCmds int, anon bool) []Step {
	var out []Step
	used := map[string]bool{}
	for k := 0; k < sessions; k++ {
		n := 1 + g.Intn(maxCmds)
		var ids []int
		for i := 0; i < n; i++ {
			id := g.id()
			op := []string{"get", "get", "getf", "set", "del"}[g.Intn(5)]
			if anon && g.chance(15) {
				op = []string{"ver", "flush"}[g.Intn(2)]
				if used[op] {
					op = "get" // requests without a key can not be told apart
				}
				used[op] = true
			}
			st := Step{Op: op, P: pipe, C: id}
			if op == "set" && g.chance(30) {
				st.N = 1 + g.Intn(80)
				if g.chance(8) { // larger than the buffers of the connection
					st.N = g.pick(4096, 16_300, 16_384, 20_000, 40_000)
				}
			}
			if (op == "get" || op == "set" || op == "del") && g.chance(4) {
				st.Key = []string{"EMPTY", "a b", "a\nb", "\x01", "h\u00e9"}[g.Intn(5)]
			}
			out = append(out, st)
			ids = append(ids, id)
			if g.chance(10) {
				out = append(out, Step{Op: "yield", N: 1 + g.Intn(20)})
			}
			if g.chance(6) {
				out = append(out, Step{Op: "exe", P: pipe})
			}
		}
		if g.chance(20) {
			out = append(out, Step{Op: "exe", P: pipe})
			if g.chance(50) {
				out = append(out, Step{Op: "yield", N: 1 + g.Intn(40)})
			}
		}
		switch g.Intn(6) {
		case 0:
			out = append(out, Step{Op: "fin", P: pipe})
		case 1:
			continue // the session is left to the next add, or never published
		}
		order := g.Perm(len(ids))
		if g.chance(60) {
			for i := range order {
				order[i] = i
			}
		}
		for _, i := range order {
			if g.chance(8) {
				continue
			}
			out = append(out, Step{Op: "res", C: ids[i]})
			if g.chance(10) {
				out = append(out, Step{Op: "res", C: ids[i]})
			}
			if g.chance(25) {
				out = append(out, Step{Op: "rel", C: ids[i]})
			}
		}
		for _, i := range order {
			if g.chance(30) {
				out = append(out, Step{Op: "rel", C: ids[i]})
			}
		}
	}
	if g.chance(70) {
		out = append(out, Step{Op: "fin", P: pipe})
	}
	return out
}

func (g *gen) startAll(s *Scn) {
	for i := range s.Actors {
		s.Main = append(s.Main, Op{Op: "start", A: i})
		if g.chance(30) {
			s.Main = append(s.Main, Op{Op: "yield", N: 1 + g.Intn(30)})
		}
	}
}

func (g *gen) faultPlan() GenPlan {
	p := okPlan()
	if g.chance(40) {
		p.Chunk = 1 + g.Intn(12)
	}
	p.WithErr = g.chance(30)
	switch g.Intn(12) {
	case 0, 1:
		if g.chance(60) {
			p.CutAt = g.Intn(60)
		} else {
			p.CutAfter = 1 + g.Intn(8)
		}
		p.CutEOF = g.chance(50)
	case 2:
		p.MuteAt = g.Intn(6)
	case 3:
		p.WFailAt = g.Intn(4)
		p.WPart = g.pick(0, 0, 3, 10, 1000)
	case 4:
		p.WFailAt = g.Intn(4)
		p.WPart = g.pick(0, 5)
		p.WStall = true
	case 5:
		p.GarbPos = g.Intn(5)
		p.ExtraN = 1 + g.Intn(3)
	case 6:
		p.DialFail = true
	case 7:
		p.DialDelay = int64(1 + g.Intn(3000))
	case 8:
		p.GarbPos = g.Intn(4)
		p.Garb = []string{"VA x\r\n", "FOO\r\n", "HD\rX", "ERROR\r\n", "\r\n"}[g.Intn(5)]
	}
	return p
}

// Scenario derives scenario idx of a family.
func Scenario(fam string, seed int64, idx int) (*Scn, int64) {
	ss := subSeed(fam, seed, idx)
	g := newGen(fam, seed, idx)
	s := base(g, fam)
	s.Sched = sched(g, idx)
	switch fam {
	case "basic":
		s.Batch = g.pick(1, 2, 3, 5)
		s.Lim = g.pick(1, 2, 3, 5, 500)
		s.Buf = g.pick(0, 16, 40, 64)
		n := 1 + g.Intn(3)
		an := g.Intn(n)
		for i := 0; i < n; i++ {
			s.Actors = append(s.Actors, g.actor(i+1, 1+g.Intn(2), g.pick(2, 4, 8), i == an))
		}
		s.Default.Chunk = g.pick(0, 0, 1, 3, 7, 20)
		s.Kinds = Kinds{SE: 60, ODD: 300}
		s.Pad = g.pick(0, 0, 30, 100)
		s.Default.ReplyLag = g.pick(0, 0, 2, 3)
		if s.Default.ReplyLag > 0 {
			s.Main = append(s.Main, Op{Op: "yield", N: 5})
		}
		g.startAll(s)
		if s.Default.ReplyLag > 0 {
			s.Main = append(s.Main, Op{Op: "quiesce"}, Op{Op: "replyall"}, Op{Op: "auto"})
			s.Default.ReplyLag = 0
		}
	case "fault":
		s.Batch = g.pick(1, 2, 3, 5)
		s.Lim = g.pick(1, 2, 3, 5, 500)
		s.Buf = g.pick(0, 16, 40, 64)
		n := 1 + g.Intn(3)
		an := g.Intn(n)
		for i := 0; i < n; i++ {
			a := g.actor(i+1, 1+g.Intn(3), g.pick(2, 4, 6), i == an)
			var b []Step
			for _, st := range a {
				if g.chance(6) {
					b = append(b, Step{Op: "sleep", N: g.pick(1, 500, 1000, 3000)})
				}
				b = append(b, st)
			}
			s.Actors = append(s.Actors, b)
		}
		for i := 0; i < 1+g.Intn(3); i++ {
			s.Plans = append(s.Plans, g.faultPlan())
		}
		if g.chance(4) { // a long outage
			for i := 0; i < 3+g.Intn(25); i++ {
				p := okPlan()
				p.DialFail = true
				s.Plans = append(s.Plans, p)
			}
			s.Fin = 200_000
		}
		if g.chance(80) && s.Plans[0].DialFail {
			s.Plans[0] = g.faultPlan()
		}
		s.Kinds = Kinds{SE: 40, ODD: 200}
		if g.chance(50) {
			s.Kinds.CE, s.Kinds.BAD = g.pick(0, 60, 150), g.pick(0, 60, 150)
			s.Kinds.BADF = g.pick(0, 0, 60)
		}
		g.startAll(s)
		for i := 0; i < g.Intn(4); i++ {
			switch g.Intn(4) {
			case 0:
				s.Main = append(s.Main, Op{Op: "yield", N: 1 + g.Intn(60)})
			case 1:
				s.Main = append(s.Main, Op{Op: "quiesce"})
			case 2:
				s.Main = append(s.Main, Op{Op: "kill", A: g.Intn(2), S: []string{"eof", "rst"}[g.Intn(2)]})
			case 3:
				s.Main = append(s.Main, Op{Op: "adv", N: g.pick(10, 700, 1000, 2000, 5000)})
			}
		}
	case "close":
		s.Slots = g.pick(1, 1, 2)
		s.Batch = g.pick(1, 2, 3)
		s.Lim = g.pick(1, 2, 4, 500)
		n := 1 + g.Intn(3)
		for i := 0; i < n; i++ {
			s.Actors = append(s.Actors, g.actor(i+1, 1+g.Intn(3), g.pick(2, 4, 6), false))
		}
		if g.chance(50) {
			for i := 0; i < 1+g.Intn(3); i++ {
				s.Plans = append(s.Plans, g.faultPlan())
			}
		}
		if g.chance(20) {
			s.Health = int64(g.pick(500, 1000))
		}
		s.Kinds = Kinds{SE: 40, ODD: 100}
		g.startAll(s)
		s.Actors = append(s.Actors, []Step{{Op: "yield", N: g.Intn(60)}, {Op: "close"}})
		if g.chance(15) {
			s.Actors = append(s.Actors, []Step{{Op: "yield", N: g.Intn(60)}, {Op: "close"}})
		}
		for i := 0; i < g.Intn(3); i++ {
			switch g.Intn(3) {
			case 0:
				s.Main = append(s.Main, Op{Op: "yield", N: 1 + g.Intn(100)})
			case 1:
				s.Main = append(s.Main, Op{Op: "quiesce"})
			case 2:
				s.Main = append(s.Main, Op{Op: "adv", N: g.pick(10, 700, 1000, 2000, 5000)})
			}
		}
		for i := n; i < len(s.Actors); i++ {
			s.Main = append(s.Main, Op{Op: "start", A: i})
		}
		s.Main = append(s.Main, Op{Op: "yield", N: 1 + g.Intn(100)})
		// a late user
		s.Actors = append(s.Actors, g.actor(50, 1, 4, false))
		s.Main = append(s.Main, Op{Op: "start", A: len(s.Actors) - 1}, Op{Op: "quiesce"})
	case "mal":
		s.Batch = g.pick(1, 2, 3, 5)
		s.Lim = g.pick(2, 5, 500)
		n := 1 + g.Intn(2)
		for i := 0; i < n; i++ {
			s.Actors = append(s.Actors, g.actor(i+1, 2+g.Intn(3), g.pick(1, 2, 4), i == 0))
		}
		s.Default.Chunk = g.pick(0, 0, 1, 2, 5)
		s.Kinds = Kinds{SE: 40, ODD: 100, MAL: g.pick(200, 500, 1000)}
		g.startAll(s)
	case "big":
		g.big(s)
	case "limit":
		g.limit(s)
	case "slots":
		g.slots(s)
	case "health":
		g.health(s)
	case "buf":
		g.buf(s)
	default:
		panic("unknown family " + fam)
	}
	switch fam {
	case "basic", "fault", "close", "mal":
		g.defaults(s)
	}
	return s, ss
}

// defaults leaves some of the options at their defaults.
func (g *gen) defaults(s *Scn) {
	om := func(name string, p *int64, d int64) {
		if g.chance(6) {
			s.Omit[name], *p = true, d
		}
	}
	om("retry", &s.Retry, 10_000)
	om("rto", &s.RTO, 1000)
	om("wto", &s.WTO, 1000)
	om("health", &s.Health, 15_000)
	if s.Omit["health"] {
		// a version request can not be told apart from a health check
		for _, a := range s.Actors {
			for i := range a {
				if a[i].Op == "ver" {
					a[i].Op = "get"
				}
			}
		}
	}
	if g.chance(5) {
		s.Lim, s.Omit["lim"] = 500, true
	}
	if g.chance(5) {
		s.Batch, s.Omit["batch"] = 100, true
	}
}
