package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"github.com/QuangTung97/go-memcache/memcache/netconn"
	"github.com/QuangTung97/go-memcache/memcache/stats"
	"github.com/QuangTung97/go-memcache/zzverif/vs"
)

// ACall is one call of the statistics client with the raw answer of the server.
type ACall struct {
	Op   string `json:"op"` // general slabs items dump
	Resp []int  `json:"resp"`
	End  string `json:"end"` // "" | eof | err | mute : what follows the answer
}

// AScn is a scenario of the statistics client.
type AScn struct {
	Calls []ACall `json:"calls"`
	Cuts  []int   `json:"cuts"`
	RTO   int     `json:"rto"`
	X     bool    `json:"x"` // the last bytes are returned together with the error
}

func adminErr(err error) string {
	if err == nil {
		return ""
	}
	var se *stats.Error
	if errors.As(err, &se) {
		return "stats"
	}
	var ne *strconv.NumError
	if errors.As(err, &ne) {
		return "num"
	}
	var inj *injErr
	if errors.As(err, &inj) {
		if inj.tmo {
			return "tmo"
		}
		return "inj"
	}
	if errors.Is(err, io.EOF) {
		return "eof"
	}
	return "other"
}

func sdigits(n int64) []int { return toInts([]byte(strconv.FormatInt(n, 10))) }

// RunAdmin executes a scenario of the statistics client.
func RunAdmin(s *AScn) ([]Ev, vs.Sched) {
	lg := &Log{}
	sch := vs.New(vs.Config{Mode: "fifo", Seed: 1, PLimit: 3_000_000})
	sch.Panic = func(g *vs.G, v any, stk string) {
		harnessPanic(v, stk)
		lg.add(Ev{"e": "panic", "msg": fmt.Sprint(v)})
	}
	sch.Livelock = func(*vs.G, string) { lg.add(Ev{"e": "spin"}) }
	lg.add(Ev{"e": "cfg", "nc": len(s.Calls), "rto": s.RTO})
	sch.Run(func() {
		cur := -1
		c := &byteConn{log: lg, cuts: s.Cuts, wfail: -1, werr: s.X}
		answered := false
		c.onReq = func(int) {
			if cur < 0 || answered || !strings.Contains(string(c.in), "\n") {
				return
			}
			c.in = nil
			answered = true
			a := &s.Calls[cur]
			c.out = append(c.out, toBytes(a.Resp)...)
			lg.add(Ev{"e": "ans", "n": len(a.Resp)})
			switch a.End {
			case "eof":
				c.eof = true
			case "err":
				c.rerr = &injErr{msg: "connection reset"}
			}
		}
		opts := []netconn.Option{netconn.WithDialFunc(func(string, string, time.Duration) (net.Conn, error) { return c, nil })}
		if s.RTO != 1000 {
			opts = append(opts, netconn.WithReadTimeout(time.Duration(s.RTO)*time.Millisecond))
		}
		done := false
		vs.Spawn("actor", func() {
			cl := stats.New("fake:11211", stats.WithErrorLogger(func(error) {}), stats.WithNetConnOptions(opts...))
			for i := range s.Calls {
				cur, answered = i, false
				lg.add(Ev{"e": "acall", "i": i + 1, "op": s.Calls[i].Op, "at": nowMS()})
				e := Ev{"e": "aret", "i": i + 1}
				switch s.Calls[i].Op {
				case "general":
					r, err := cl.GetGeneralStats()
					e["x"] = adminErr(err)
					e["r"] = Ev{"pid": digits(r.PID), "uptime": digits(r.Uptime)}
				case "slabs":
					r, err := cl.GetSlabsStats()
					e["x"] = adminErr(err)
					ids, sl := [][]int{}, []Ev{}
					for _, id := range r.SlabIDs {
						ids = append(ids, digits(uint64(id)))
						x := r.Slabs[id]
						sl = append(sl, Ev{"chunk_size": digits(uint64(x.ChunkSize)), "chunks_per_page": digits(uint64(x.ChunksPerPage)),
							"total_pages": digits(uint64(x.TotalPages)), "total_chunks": digits(x.TotalChunks), "used_chunks": digits(x.UsedChunks)})
					}
					e["r"] = Ev{"active": digits(uint64(r.ActiveSlabs)), "malloced": digits(r.TotalMalloced), "ids": ids, "slabs": sl, "n": len(r.Slabs)}
				case "items":
					r, err := cl.GetSlabItemsStats()
					e["x"] = adminErr(err)
					ids, sl := [][]int{}, []Ev{}
					for _, id := range r.SlabIDs {
						ids = append(ids, digits(uint64(id)))
						x := r.Slabs[id]
						sl = append(sl, Ev{
							"number": digits(x.Number), "number_hot": digits(x.NumberHot), "number_warm": digits(x.NumberWarm), "number_cold": digits(x.NumberCold),
							"age_hot": digits(x.AgeHot), "age_warm": digits(x.AgeWarm), "age": digits(x.Age), "mem_requested": digits(x.MemRequested),
							"evicted": digits(x.Evicted), "evicted_nonzero": digits(x.EvictedNonZero), "evicted_time": digits(x.EvictedTime),
							"outofmemory": digits(x.OutOfMemory), "tailrepairs": digits(x.TailRepairs), "reclaimed": digits(x.Reclaimed),
							"expired_unfetched": digits(x.ExpiredUnfetched), "evicted_unfetched": digits(x.EvictedUnfetched), "evicted_active": digits(x.EvictedActive),
							"crawler_reclaimed": digits(x.CrawlerReclaimed), "crawler_items_checked": digits(x.CrawlerItemsChecked), "lrutail_reflocked": digits(x.LRUTailRefLocked),
							"moves_to_cold": digits(x.MovesToCold), "moves_to_warm": digits(x.MovesToWarm), "moves_within_lru": digits(x.MovesWithinLRU),
							"direct_reclaims": digits(x.DirectReclaims), "hits_to_hot": digits(x.HitsToHot), "hits_to_warm": digits(x.HitsToWarm),
							"hits_to_cold": digits(x.HitsToCold), "hits_to_temp": digits(x.HitsToTemp)})
					}
					e["r"] = Ev{"ids": ids, "slabs": sl, "n": len(r.Slabs)}
				case "dump":
					n := 0
					err := cl.MetaDumpAll(func(k stats.MetaDumpKey) {
						n++
						lg.add(Ev{"e": "item", "key": toInts([]byte(k.Key)), "exp": sdigits(k.Exp), "la": sdigits(k.LA), "cas": digits(k.CAS),
							"fetch": k.Fetch, "cls": digits(uint64(k.Class)), "size": digits(uint64(k.Size))})
					})
					e["x"] = adminErr(err)
					e["r"] = Ev{"n": n}
				}
				e["at"] = nowMS()
				lg.add(e)
			}
			_ = cl.Close()
			done = true
		})
		vs.Quiesce()
		vs.Advance(60_000_000_000)
		lg.add(Ev{"e": "end", "done": done, "closed": c.closed})
	})
	return lg.ev, *sch
}

var itemNames = strings.Fields(`number number_hot number_warm number_cold age_hot age_warm age mem_requested evicted
 evicted_nonzero evicted_time outofmemory tailrepairs reclaimed expired_unfetched evicted_unfetched evicted_active crawler_reclaimed
 crawler_items_checked lrutail_reflocked moves_to_cold moves_to_warm moves_within_lru direct_reclaims hits_to_hot hits_to_warm hits_to_cold hits_to_temp`)
var slabNames = strings.Fields("chunk_size chunks_per_page total_pages total_chunks used_chunks")
var slabUnknown = strings.Fields("free_chunks free_chunks_end get_hits cmd_set delete_hits incr_hits touch_hits mem_requested")
var generalUnknown = strings.Fields("time version libevent pointer_size rusage_user threads curr_items total_items bytes pid_max uptimes accepting_conns")

func (g *gen) statNum() string {
	switch g.Intn(12) {
	case 0:
		return "0"
	case 1:
		return "4294967295"
	case 2:
		return "18446744073709551615"
	case 3:
		return strconv.FormatUint(g.Uint64(), 10)
	}
	return strconv.Itoa(g.Intn(1000000))
}

func (g *gen) small32() string { return strconv.FormatUint(uint64(g.u32()), 10) }

// statLine is one line of an answer; bad = chance (%) of a malformed one.
func (g *gen) statLine(op string, bad int) string {
	num, n32 := g.statNum(), g.small32()
	if g.chance(bad) {
		num = g.pickS("", "aa", "-1", "18446744073709551616", "4294967296", "1.5", "12x")
		n32 = num
		if g.chance(30) {
			return g.pickS("STAT", "STAT pid", "ERROR", "SERVER_ERROR out of memory", "CLIENT_ERROR bad", "", "STATS pid 1", "RESET")
		}
	}
	switch op {
	case "general":
		switch g.Intn(3) {
		case 0:
			return "STAT pid " + num
		case 1:
			return "STAT uptime " + num
		}
		return "STAT " + g.pickS(generalUnknown...) + " " + g.pickS("1", "1.6.18", "0.12", "abc")
	case "slabs":
		id := strconv.Itoa(1 + g.Intn(4))
		if g.chance(10) {
			id = n32
			if id == "" {
				id = "0"
			}
		}
		switch g.Intn(8) {
		case 0:
			return "STAT active_slabs " + n32
		case 1:
			return "STAT total_malloced " + num
		case 2:
			return "STAT " + id + ":" + g.pickS(slabUnknown...) + " " + num
		case 3, 4:
			return "STAT " + id + ":" + g.pickS("total_chunks", "used_chunks") + " " + num
		}
		return "STAT " + id + ":" + g.pickS("chunk_size", "chunks_per_page", "total_pages") + " " + n32
	default:
		id := strconv.Itoa(1 + g.Intn(4))
		if g.chance(15) {
			id = g.pickS("63", "64", "255", "256", "4294967295")
		}
		name := g.pickS(itemNames...)
		if g.chance(10) {
			name = g.pickS("mem_unknown", "hits", "number_", "age_cold")
		}
		return "STAT items:" + id + ":" + name + " " + num
	}
}

func urlenc(k []byte, g *gen) string {
	var b strings.Builder
	for _, c := range k {
		al := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("-._~", c) >= 0
		if al || strings.IndexByte("+!*()&;,/:@$", c) >= 0 && g.chance(40) {
			b.WriteByte(c)
		} else if g.chance(80) {
			fmt.Fprintf(&b, "%%%02X", c)
		} else {
			fmt.Fprintf(&b, "%%%02x", c)
		}
	}
	return b.String()
}

func (g *gen) dumpLine(bad int) string {
	k := g.key(1 + g.Intn(12))
	s64 := func() string {
		return g.pickS("-1", "0", "1675839370", "9223372036854775807", strconv.Itoa(g.Intn(1<<31)))
	}
	f := []string{"key=" + urlenc(toBytes(k), g), "exp=" + s64(), "la=" + s64(), "cas=" + strconv.FormatUint(g.u64(), 10),
		"fetch=" + g.pickS("yes", "no"), "cls=" + g.small32(), "size=" + g.small32()}
	if g.chance(15) {
		f = append(f, "flags="+strconv.Itoa(g.Intn(9)))
	}
	if g.chance(bad) {
		switch g.Intn(4) {
		case 0:
			f[0] = "key=a%" + g.pickS("mm", "", "4", "G1")
		case 1:
			f[1+g.Intn(3)] = g.pickS("exp=x", "la=", "cas=-1", "cas=18446744073709551616", "exp=9223372036854775808")
		case 2:
			f[5+g.Intn(2)] = g.pickS("cls=x", "size=4294967296", "size=", "cls=-1")
		default:
			f[1+g.Intn(6)] = g.pickS("novalue", "")
		}
	}
	return strings.Join(f, " ")
}

func adminScenario(fam string, seed int64, idx int) *AScn {
	g := newGen(fam, seed, idx)
	s := &AScn{RTO: g.pick(1000, 1000, 300, 2500)}
	n := 1 + g.Intn(3)
	total := 0
	for i := 0; i < n; i++ {
		op := g.pickS("general", "slabs", "items", "items")
		if fam == "dump" && g.chance(75) {
			op = "dump"
		}
		a := ACall{Op: op}
		bad := g.pick(0, 0, 0, 4, 15)
		k := g.Intn(8)
		if fam != "dump" && op == "items" && g.chance(10) {
			k = 40
		}
		var b strings.Builder
		nl := "\r\n"
		over := false
		if op == "dump" {
			nl = g.pickS("\n", "\n", "\r\n")
			switch {
			case g.chance(5):
				b.WriteString(g.pickS("BUSY currently processing crawler request", "ERROR", "CLIENT_ERROR lru crawler disabled", "LOCKED try again later") + "\r\n")
				over = true
			default:
				for j := 0; j < k; j++ {
					b.WriteString(g.dumpLine(bad) + nl)
				}
			}
		} else if g.chance(4) {
			b.WriteString(g.pickS("ERROR", "SERVER_ERROR out of memory writing stats", "CLIENT_ERROR bad command line format") + "\r\n")
			over = true
		} else {
			for j := 0; j < k; j++ {
				b.WriteString(g.statLine(op, bad) + nl)
			}
		}
		if !over {
			b.WriteString("END\r\n")
		}
		a.Resp = cat(b.String())
		if g.chance(7) && len(a.Resp) > 0 { // the connection ends inside the answer
			a.Resp = a.Resp[:g.Intn(len(a.Resp))]
			a.End = g.pickS("eof", "err", "mute")
		}
		total += len(a.Resp)
		s.Calls = append(s.Calls, a)
		if a.End != "" {
			break
		}
	}
	if g.chance(70) {
		s.Cuts = g.cuts(total)
	}
	s.X = g.chance(30)
	return s
}

// ---------------------------------------------------------------- auth

// UScn is a scenario of the password authentication: one or more handshakes
// with the same dial function, one after the other or at the same time.
type UScn struct {
	User  []int `json:"user"`
	Pass  []int `json:"pass"`
	Dials []UDial
	Conc  bool
	Sched vs.Config
}

// UDial is one handshake.
type UDial struct {
	Resp    []int `json:"resp"`
	Cuts    []int `json:"cuts"`
	End     string
	Timeout int // ms
	DialErr bool
	WFail   bool
	Delay   int // ms before the answer
}

func authErr(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, netconn.ErrInvalidUsernamePassword):
		return "auth"
	}
	var inj *injErr
	if errors.As(err, &inj) {
		if inj.tmo {
			return "tmo"
		}
		return "inj"
	}
	if errors.Is(err, io.EOF) {
		return "eof"
	}
	return "other"
}

var errDialU = errors.New("dial refused")

// RunAuth executes handshakes and, when one succeeds, uses the connection for
// a client afterwards.
func RunAuth(s *UScn) ([]Ev, vs.Sched) {
	lg := &Log{}
	if s.Sched.Mode == "" {
		s.Sched = vs.Config{Mode: "fifo", Seed: 1, PLimit: 3_000_000}
	}
	sch := vs.New(s.Sched)
	sch.Panic = func(g *vs.G, v any, stk string) {
		harnessPanic(v, stk)
		lg.add(Ev{"e": "panic", "msg": fmt.Sprint(v)})
	}
	sch.Livelock = func(*vs.G, string) { lg.add(Ev{"e": "spin"}) }
	var ds []Ev
	for _, d := range s.Dials {
		ds = append(ds, Ev{"tmo": d.Timeout, "dialerr": d.DialErr})
	}
	lg.add(Ev{"e": "cfg", "user": nn(s.User), "pass": nn(s.Pass), "d": ds})
	sch.Run(func() {
		var hs []*hand
		for i := range s.Dials {
			hs = append(hs, newHand(i+1, &s.Dials[i], lg))
		}
		done := 0
		dial := func(network, address string, timeout time.Duration) (net.Conn, error) {
			k := 1
			_, _ = fmt.Sscanf(address, "fake:%d", &k)
			if k < 1 || k > len(hs) {
				k = 1
			}
			h := hs[k-1]
			lg.add(Ev{"e": "udial", "k": k, "net": network, "addr": address, "tmo": int(timeout / time.Millisecond), "at": nowMS()})
			if h.d.DialErr {
				return nil, errDialU
			}
			return h.c, nil
		}
		spawn := func(name string, f func()) { vs.Spawn(name, f) }
		spawn("actor", func() {
			a, err := netconn.NewPasswordAuth(string(toBytes(s.User)), string(toBytes(s.Pass)))
			if err != nil {
				lg.add(Ev{"e": "newerr"})
				done = len(hs)
				return
			}
			df := a.GetDialFunc(dial)
			for _, h := range hs {
				h := h
				if s.Conc {
					spawn(fmt.Sprint("dial", h.c.k), func() { h.run(df, lg); done++ })
				} else {
					h.run(df, lg)
					done++
				}
			}
		})
		vs.Quiesce()
		vs.Advance(600_000_000_000)
		lg.add(Ev{"e": "end", "done": done == len(hs), "at": nowMS()})
	})
	return lg.ev, *sch
}

// hand is one handshake and its server.
type hand struct {
	d  *UDial
	c  *byteConn
	hs bool
}

func newHand(k int, s *UDial, lg *Log) *hand {
	c := &byteConn{log: lg, cuts: s.Cuts, wfail: -1, k: k}
	h := &hand{d: s, c: c, hs: true}
	if s.WFail {
		c.wfail = 0
	}
	c.onReq = func(int) {
		if !h.hs {
			for {
				n := reqLen(c.in)
				if n == 0 {
					return
				}
				c.in = c.in[n:]
				c.out = append(c.out, "VA 2\r\nok\r\n"...)
			}
		}
		if strings.Count(string(c.in), "\r\n") < 2 || s.Resp == nil {
			return
		}
		h.hs = false
		c.in = nil
		resp := toBytes(s.Resp)
		send := func() {
			c.out = append(c.out, resp...)
			switch s.End {
			case "eof":
				c.eof = true
			case "err":
				c.rerr = &injErr{msg: "connection reset"}
			}
		}
		if s.Delay > 0 {
			vs.Timer(int64(s.Delay)*1_000_000, send)
		} else {
			send()
		}
	}
	return h
}

func (h *hand) run(df netconn.DialFunc, lg *Log) {
	c, s := h.c, h.d
	lg.add(Ev{"e": "ucall", "k": c.k, "at": nowMS()})
	nc, err := df("tcp", fmt.Sprint("fake:", c.k), time.Duration(s.Timeout)*time.Millisecond)
	x := authErr(err)
	if errors.Is(err, errDialU) {
		x = "dial"
	}
	lg.add(Ev{"e": "uret", "k": c.k, "x": x, "conn": nc != nil, "closed": c.closed, "rdl": c.rdl > 0, "wdl": c.wdl > 0, "deliv": c.deliv, "at": nowMS()})
	if err != nil || nc == nil {
		return
	}
	h.hs = false
	c.wmute = true
	cl, err := memcache.New("fake:11211", 1, memcache.WithHealthCheckDuration(100_000*time.Second),
		memcache.WithDialFunc(func(string, string, time.Duration) (net.Conn, error) { return nc, nil }))
	if err != nil {
		panic(err)
	}
	vs.TSleep(30 * time.Second)
	p := cl.Pipeline()
	r, err := p.MGet("k", memcache.MGetOptions{})()
	lg.add(Ev{"e": "use", "k": c.k, "x": authErr(err), "d": toInts(r.Data)})
	_ = cl.Close()
}

func authScenario(fam string, seed int64, idx int) *UScn {
	g := newGen(fam, seed, idx)
	s := &UScn{User: g.key(g.pick(0, 1, 4, 8, 30)), Pass: g.key(g.pick(0, 1, 4, 9, 100))}
	if g.chance(30) { // bytes that are no ASCII characters
		s.User = cat(g.pickS("", "u", "us er"), cat(g.pickS("\u00e9", "\u6f22\u5b57", "\xff\xfe", "\U0001f511")))
	}
	if g.chance(30) {
		s.Pass = cat(s.Pass, cat(g.pickS("\u00e9", "\u6f22\u5b57", "\xff\xfe", "p\u00e4ss", "\r\n", "\x00")))
	}
	n := g.pick(1, 1, 2, 3)
	for i := 0; i < n; i++ {
		s.Dials = append(s.Dials, g.udial())
	}
	if n > 1 && g.chance(60) {
		s.Conc = true
		s.Sched = sched(g, idx)
	}
	return s
}

func (g *gen) udial() UDial {
	s := UDial{Timeout: g.pick(10_000, 500, 3000)}
	switch g.Intn(10) {
	case 0, 1, 2, 3:
		s.Resp = cat("STORED\r\n")
	case 4:
		s.Resp = cat(g.pickS("CLIENT_ERROR authentication failure\r\n", "ERROR\r\nxx", "NOTSTORE", "STORED\n\r", "STOREDxx", "stored\r\n", "XTORED\r\n", "STORED\r\x00"))
	case 5: // one byte off
		s.Resp = cat("STORED\r\n")
		s.Resp[g.Intn(8)] ^= 1 << uint(g.Intn(7))
	case 6: // too short, then the end or nothing
		s.Resp = cat("STORED\r\n")[:g.Intn(8)]
		s.End = g.pickS("eof", "err", "mute")
	case 7:
		s.DialErr = g.chance(40)
		s.WFail = !s.DialErr
	case 8: // nothing at all
	case 9:
		s.Resp = cat("STORED\r\n")
		s.Delay = g.pick(1, 100, 400, 499, 501, 2900, 20_000)
	}
	s.Cuts = g.cuts(8)
	if g.chance(30) {
		s.Cuts = nil
	}
	return s
}
