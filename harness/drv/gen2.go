package main

// big: more outstanding batches than the internal queues hold.
func (g *gen) big(s *Scn) {
	s.Batch = g.pick(1, 1, 2)
	s.Lim = g.pick(1000, 100000)
	s.Buf = g.pick(0, 0, 64)
	total := s.Batch * (300 + g.Intn(400))
	if g.chance(12) { // one very large batch
		s.Batch = g.pick(511, 512, 513, 700, 1024, 1025, 2000)
		total = s.Batch + g.Intn(100)
	}
	np := 1 + g.Intn(3)
	var all [][]Step
	for p := 1; p <= np; p++ {
		var st []Step
		var ids []int
		for i := 0; i < total/np; i++ {
			id := g.id()
			ids = append(ids, id)
			st = append(st, Step{Op: []string{"get", "del"}[g.Intn(2)], P: p, C: id})
		}
		st = append(st, Step{Op: "exe", P: p})
		for i := 0; i < 6; i++ {
			st = append(st, Step{Op: "res", C: ids[g.Intn(len(ids))]})
		}
		st = append(st, Step{Op: "fin", P: p}, Step{Op: "get", P: p, C: g.id()}, Step{Op: "fin", P: p})
		all = append(all, st)
	}
	s.Actors = all
	s.Default.Chunk = g.pick(0, 0, 50)
	p := okPlan()
	p.Manual = true
	p.WithErr = g.chance(30)
	switch g.Intn(6) {
	case 0:
		p.WFailAt = g.pick(0, 1, 1+g.Intn(20))
		p.WStall = g.chance(30)
	case 1:
		p.CutAt = g.Intn(400)
		p.CutEOF = g.chance(50)
	case 2:
		p.MuteAt = 0
	}
	s.Plans = []GenPlan{p}
	for i := range s.Actors {
		s.Main = append(s.Main, Op{Op: "start", A: i})
	}
	s.Main = append(s.Main, Op{Op: "quiesce"})
	if g.chance(30) {
		s.Main = append(s.Main, Op{Op: "reply", A: 0, N: g.Intn(300)}, Op{Op: "quiesce"})
	}
	switch g.Intn(4) {
	case 0:
		s.Main = append(s.Main, Op{Op: "kill", A: 0, S: "eof"}, Op{Op: "quiesce"})
	case 1:
		s.Main = append(s.Main, Op{Op: "adv", N: 1500})
	}
	s.Main = append(s.Main, Op{Op: "auto"}, Op{Op: "quiesce"})
	if g.chance(20) {
		s.Actors = append(s.Actors, []Step{{Op: "close"}})
		s.Main = append(s.Main, Op{Op: "start", A: len(s.Actors) - 1}, Op{Op: "quiesce"})
	}
}

// limit: long and short pipelines against a server that answers step by step.
func (g *gen) limit(s *Scn) {
	s.Batch = g.pick(1, 2, 3, 4)
	s.Lim = g.pick(1, 2, 3, 4, 6, 8)
	s.Default.Manual = true
	np := 2 + g.Intn(4)
	for p := 1; p <= np; p++ {
		n := g.pick(1, 1, 2, 3, 5)
		if p == 1 || g.chance(25) {
			n = 8 + g.Intn(30)
		}
		var st []Step
		var ids []int
		if p > 1 {
			st = append(st, Step{Op: "yield", N: g.Intn(40)})
		}
		for k := 0; k < 1+g.Intn(2); k++ {
			ids = nil
			for i := 0; i < n; i++ {
				id := g.id()
				ids = append(ids, id)
				st = append(st, Step{Op: []string{"get", "del", "set"}[g.Intn(3)], P: p, C: id})
			}
			if g.chance(70) {
				st = append(st, Step{Op: "exe", P: p})
			}
			if g.chance(30) {
				st = append(st, Step{Op: "yield", N: g.Intn(30)})
			}
			st = append(st, Step{Op: "res", C: ids[g.Intn(n)]})
		}
		st = append(st, Step{Op: "fin", P: p})
		s.Actors = append(s.Actors, st)
	}
	s.Default.Chunk = g.pick(0, 0, 1, 3, 9)
	started := 0
	for started < np {
		k := 1 + g.Intn(np-started)
		for i := 0; i < k; i++ {
			s.Main = append(s.Main, Op{Op: "start", A: started})
			started++
		}
		if g.chance(60) {
			s.Main = append(s.Main, Op{Op: "quiesce"})
		} else {
			s.Main = append(s.Main, Op{Op: "yield", N: g.Intn(60)})
		}
		for i := 0; i < g.Intn(4); i++ {
			s.Main = append(s.Main, Op{Op: "reply", A: 0, N: 1 + g.Intn(4)})
			if g.chance(70) {
				s.Main = append(s.Main, Op{Op: "quiesce"})
			} else {
				s.Main = append(s.Main, Op{Op: "yield", N: g.Intn(25)})
			}
		}
	}
	for i := 0; i < 5+g.Intn(25); i++ {
		s.Main = append(s.Main, Op{Op: "reply", A: 0, N: 1 + g.Intn(3)})
		if g.chance(80) {
			s.Main = append(s.Main, Op{Op: "quiesce"})
		}
	}
	if g.chance(15) {
		s.Main = append(s.Main, Op{Op: "kill", A: 0, S: "eof"}, Op{Op: "quiesce"})
	}
	s.Main = append(s.Main, Op{Op: "auto"}, Op{Op: "quiesce"})
}

// slots: pipelines over several connections.
func (g *gen) slots(s *Scn) {
	s.Slots = 2 + g.Intn(3)
	s.Batch = g.pick(1, 3, 100)
	na := 1
	if g.chance(60) {
		na = 2 + g.Intn(2)
	}
	p := 0
	for a := 0; a < na; a++ {
		var st []Step
		var mine []int
		for i := 0; i < 2+g.Intn(8); i++ {
			use := 0
			if len(mine) > 0 && g.chance(35) {
				use = mine[g.Intn(len(mine))] // a second session of the same pipeline
			} else {
				p++
				use = p
				mine = append(mine, p)
			}
			n := 1 + g.Intn(3)
			var ids []int
			for k := 0; k < n; k++ {
				id := g.id()
				ids = append(ids, id)
				st = append(st, Step{Op: []string{"get", "del", "set", "getf"}[g.Intn(4)], P: use, C: id})
			}
			switch g.Intn(3) {
			case 0:
				st = append(st, Step{Op: "exe", P: use})
			case 1:
				st = append(st, Step{Op: "fin", P: use})
			}
			if g.chance(70) {
				st = append(st, Step{Op: "res", C: ids[g.Intn(n)]})
			}
		}
		for _, q := range mine {
			st = append(st, Step{Op: "fin", P: q})
		}
		s.Actors = append(s.Actors, st)
	}
	if g.chance(25) {
		for i := 0; i < s.Slots+2; i++ {
			s.Plans = append(s.Plans, okPlan())
		}
		s.Plans[g.Intn(s.Slots)] = g.faultPlan()
	}
	g.startAll(s)
}

// health: periods of activity and silence.
func (g *gen) health(s *Scn) {
	s.Slots = 1 + g.Intn(3)
	s.Health = 1000
	s.RTO = 100
	s.Retry = int64(g.pick(150, 2500))
	p := 0
	mute := false
	for i := 0; i < s.Slots; i++ {
		s.Plans = append(s.Plans, okPlan())
	}
	if g.chance(15) {
		q := okPlan()
		q.DialFail = true
		s.Plans = append(s.Plans, q)
	}
	users := func() int {
		u := g.Intn(2*s.Slots + 1)
		na := 1
		if g.chance(40) {
			na = 2
		}
		for a := 0; a < na && u > 0; a++ {
			var st []Step
			k := u / (na - a)
			u -= k
			p0 := p
			for i := 0; i < k; i++ {
				p++
				id := g.id()
				st = append(st, Step{Op: []string{"get", "del", "set"}[g.Intn(3)], P: p, C: id}, Step{Op: "res", C: id})
			}
			if k == 0 {
				continue
			}
			s.Actors = append(s.Actors, st)
			s.Main = append(s.Main, Op{Op: "start", A: len(s.Actors) - 1})
			_ = p0
		}
		s.Main = append(s.Main, Op{Op: "quiesce"})
		return 0
	}
	s.Main = append(s.Main, Op{Op: "adv", N: 501})
	periods := 3 + g.Intn(4)
	for k := 0; k < periods; k++ {
		before := p
		users()
		u := p - before
		if g.chance(20) {
			op := "kill"
			if g.chance(25) {
				op, mute = "mute", true
			}
			s.Main = append(s.Main, Op{Op: op, A: g.Intn(s.Slots), S: []string{"eof", "rst"}[g.Intn(2)]})
		}
		s.Main = append(s.Main, Op{Op: "adv", N: 500})
		kind := ""
		if u >= s.Slots {
			kind = "quiet"
		}
		if mute {
			kind = "free"
		}
		s.Main = append(s.Main, Op{Op: "tick", A: s.Slots, S: kind}, Op{Op: "adv", N: 500})
	}
	s.Fin = 4000
	if g.chance(30) {
		s.Actors = append(s.Actors, []Step{{Op: "close"}})
		s.Main = append(s.Main, Op{Op: "adv", N: g.pick(498, 499, 500, 501)}, Op{Op: "start", A: len(s.Actors) - 1}, Op{Op: "quiesce"})
	}
}

var bufSizes = []int{-1, 1, 30, 61, 62, 63, 64, 65, 66, 126, 127, 128, 129, 130, 254, 256, 258, 510, 512, 1022, 1023, 1024, 1025, 1026, 4096, 16384, 65535, 65537}

// buf: payload buffers held, overwritten and released in every order.
func (g *gen) buf(s *Scn) {
	s.Batch = g.pick(1, 2, 5, 100)
	s.Buf = g.pick(0, 0, 64, 1000)
	s.Default.Chunk = g.pick(0, 0, 100, 3000)
	na := 1 + g.Intn(2)
	size := func() int {
		if g.chance(85) {
			return bufSizes[g.Intn(21)]
		}
		if g.chance(6) {
			return (1 << 20) + g.pick(-3, -2, -1, 0, 1, 2)
		}
		return bufSizes[g.Intn(len(bufSizes))]
	}
	for a := 0; a < na; a++ {
		var st []Step
		var held []int
		p := a + 1
		for k := 0; k < 2+g.Intn(5); k++ {
			n := 1 + g.Intn(5)
			var ids []int
			for i := 0; i < n; i++ {
				id := g.id()
				ids = append(ids, id)
				st = append(st, Step{Op: []string{"get", "getf", "get", "set", "set"}[g.Intn(5)], P: p, C: id, N: size()})
				if g.chance(20) {
					st = append(st, Step{Op: "yield", N: g.Intn(20)})
				}
				if len(held) > 0 && g.chance(30) {
					st = append(st, Step{Op: []string{"chk", "scrib", "rel"}[g.Intn(3)], C: held[g.Intn(len(held))]})
				}
			}
			for _, i := range g.Perm(n) {
				st = append(st, Step{Op: "res", C: ids[i]})
				held = append(held, ids[i])
				if g.chance(40) {
					st = append(st, Step{Op: []string{"chk", "scrib", "rel", "rel"}[g.Intn(4)], C: held[g.Intn(len(held))]})
				}
			}
		}
		for _, h := range held {
			st = append(st, Step{Op: "chk", C: h})
		}
		for _, h := range held {
			if g.chance(60) {
				st = append(st, Step{Op: "rel", C: h})
			}
		}
		s.Actors = append(s.Actors, st)
	}
	if g.chance(45) { // connections that break, also in the middle of a value
		for i := 0; i < 1+g.Intn(3); i++ {
			p := g.faultPlan()
			if p.Chunk > 0 {
				p.Chunk = 60 + g.Intn(3000)
			}
			if p.CutAt >= 0 && g.chance(50) {
				p.CutAt = g.Intn(600)
			}
			s.Plans = append(s.Plans, p)
		}
		s.Kinds = Kinds{SE: 40, CE: g.pick(0, 80), BAD: g.pick(0, 80)}
		g.startAll(s)
		for i := 0; i < g.Intn(3); i++ {
			s.Main = append(s.Main, Op{Op: "yield", N: 1 + g.Intn(80)}, Op{Op: "kill", A: g.Intn(2), S: []string{"eof", "rst"}[g.Intn(2)]},
				Op{Op: "adv", N: g.pick(10, 1000, 5000)})
		}
		return
	}
	g.startAll(s)
}
