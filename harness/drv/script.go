package main

import (
	"encoding/json"
	"fmt"
	"os"

	"github.com/QuangTung97/go-memcache/zzverif/vs"
)

// act is one environment action of a behaviour of Design.tla.
type act struct {
	O string `json:"o"` // cfg begin ans kill retry close dial
	A int    `json:"a"`
	B int    `json:"b"`
	K string `json:"k"`
}

// scriptScenario replays the environment of a behaviour of the design; the
// variant selects the schedule and what the specification leaves open.
func scriptScenario(fam string, lines [][]byte, seed int64, idx int) (*Scn, int64, bool) {
	if len(lines) == 0 {
		return nil, 0, false
	}
	// a different part of the behaviours for every seed
	pos := int((uint64(idx) + uint64(seed)*7919) % uint64(len(lines)))
	var acts []act
	if err := json.Unmarshal(lines[pos], &acts); err != nil {
		fmt.Fprintln(os.Stderr, "bad script:", err)
		os.Exit(3)
	}
	ss := subSeed(fam, seed, idx)
	g := newGen(fam, seed, idx)
	s := base(g, fam)
	s.Sched = sched(g, idx)
	s.Default.Manual = true
	s.RTO, s.WTO, s.Fin = 1_000_000, 1_000_000, 3_000_000
	s.Default.Chunk = g.pick(0, 0, 1, 3)
	lock := g.chance(60) // let the client come to rest between the actions
	last := map[int]int{}
	for _, a := range acts {
		switch a.O {
		case "cfg":
			s.Batch, s.Lim = a.A, a.B
			continue
		case "dial":
			p := s.Default
			p.DialFail = a.B == 0
			s.Plans = append(s.Plans, p)
			continue
		case "begin":
			st := []Step{}
			if prev, ok := last[a.A]; ok {
				st = append(st, Step{Op: "after", N: prev})
			}
			var ids []int
			for i := 0; i < a.B; i++ {
				id := g.id()
				ids = append(ids, id)
				st = append(st, Step{Op: []string{"get", "get", "getf", "set", "del"}[g.Intn(5)], P: a.A, C: id})
			}
			for _, id := range ids {
				st = append(st, Step{Op: "res", C: id})
			}
			s.Actors = append(s.Actors, st)
			last[a.A] = len(s.Actors) - 1
			s.Main = append(s.Main, Op{Op: "start", A: len(s.Actors) - 1})
		case "ans":
			s.Main = append(s.Main, Op{Op: "reply", A: a.A, N: 1, S: a.K})
		case "kill":
			s.Main = append(s.Main, Op{Op: "kill", A: a.A, S: []string{"eof", "rst"}[g.Intn(2)]})
		case "retry":
			s.Main = append(s.Main, Op{Op: "adv", N: int(s.Retry)})
		case "close":
			s.Actors = append(s.Actors, []Step{{Op: "close"}})
			s.Main = append(s.Main, Op{Op: "start", A: len(s.Actors) - 1})
		}
		if lock {
			s.Main = append(s.Main, Op{Op: "quiesce"})
		} else if g.chance(70) {
			s.Main = append(s.Main, Op{Op: "yield", N: g.pick(1, 3, 10, 30)})
		}
	}
	s.Main = append(s.Main, Op{Op: "quiesce"})
	if g.chance(50) {
		s.Main = append(s.Main, Op{Op: "auto"}, Op{Op: "quiesce"})
	}
	return s, ss, true
}

// after waits for the end of another actor.
func (w *World) after(a int) {
	vs.Block("after", func() bool { return w.ended[a] })
}
