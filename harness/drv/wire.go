package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"github.com/QuangTung97/go-memcache/zzverif/vs"
)

// WCmd is one command of a byte-level scenario.
type WCmd struct {
	T    string `json:"t"`
	K    []int  `json:"k"`
	V    []int  `json:"v"`
	N    uint32 `json:"n"`
	CAS  string `json:"cas"`
	TTL  uint32 `json:"ttl"`
	I    bool   `json:"i"`
	C    bool   `json:"c"`
	Fast bool   `json:"fast"`
	End  bool   `json:"end"` // last command of its group
}

// WScn is a byte-level scenario: commands, the raw answers and the positions
// at which the answer stream is cut into reads.
type WScn struct {
	Cmds  []WCmd  `json:"cmds"`
	Resp  [][]int `json:"resp"`
	Cuts  []int   `json:"cuts"`
	Batch int     `json:"batch"`
	Buf   int     `json:"buf"`
	Rev   bool    `json:"rev"` // results are fetched in reverse order
	Exec  bool    `json:"exec"`
	EOF   string  `json:"eof"` // after the last answer: "" stay open, "eof", "eofx" (returned with the last bytes)
}

func toBytes(x []int) []byte {
	b := make([]byte, len(x))
	for i, v := range x {
		b[i] = byte(v)
	}
	return b
}

func toInts(b []byte) []int {
	x := make([]int, len(b))
	for i, v := range b {
		x[i] = int(v)
	}
	return x
}

func nn(x []int) []int {
	if x == nil {
		return []int{}
	}
	return x
}

func digits(n uint64) []int { return toInts([]byte(strconv.FormatUint(n, 10))) }

// byteConn is a fake connection with a byte-level server behind it.
type byteConn struct {
	log    *Log
	in     []byte
	out    []byte
	deliv  int
	cuts   []int
	closed bool
	eof    bool
	rerr   error
	ready  func() bool // may the client read?
	onReq  func(n int) // n bytes arrived
	wfail  int         // the Write call that fails (-1: none)
	nw     int
	rdl    int64
	wdl    int64
	rtimer func()
	wtimer func()
	wmute  bool // do not log written bytes
	werr   bool // the last bytes are returned together with the error
	k      int  // number of the connection, when there are several
}

func (c *byteConn) ev(e Ev) {
	if c.k > 0 {
		e["k"] = c.k
	}
	c.log.add(e)
}

func (c *byteConn) Read(p []byte) (int, error) {
	vs.Point()
	vs.Block("net read", func() bool {
		return c.closed || (c.rdl > 0 && vs.NowNS() >= c.rdl) ||
			((c.ready == nil || c.ready()) && (len(c.out) > 0 || c.eof || c.rerr != nil))
	})
	if vs.Aborting() || c.closed {
		return 0, errUseClosed
	}
	if c.rdl > 0 && vs.NowNS() >= c.rdl && (len(c.out) == 0 || (c.ready != nil && !c.ready())) && !c.eof && c.rerr == nil {
		c.ev(Ev{"e": "rtmo", "at": nowMS()})
		return 0, &injErr{msg: "read timeout", tmo: true}
	}
	if len(c.out) == 0 {
		return 0, c.readError()
	}
	n := len(c.out)
	if n > len(p) {
		n = len(p)
	}
	for _, k := range c.cuts {
		if k > c.deliv && k < c.deliv+n {
			n = k - c.deliv
			break
		}
	}
	copy(p, c.out[:n])
	c.ev(Ev{"e": "rd", "b": toInts(c.out[:n]), "at": nowMS()})
	c.out = c.out[n:]
	c.deliv += n
	if c.werr && len(c.out) == 0 && (c.eof || c.rerr != nil) {
		return n, c.readError()
	}
	return n, nil
}

func (c *byteConn) readError() error {
	if c.rerr != nil {
		c.ev(Ev{"e": "rerr", "at": nowMS()})
		return c.rerr
	}
	c.ev(Ev{"e": "reof", "at": nowMS()})
	return io.EOF
}

func (c *byteConn) Write(p []byte) (int, error) {
	vs.Point()
	if c.closed {
		return 0, errUseClosed
	}
	c.nw++
	if c.wfail >= 0 && c.nw > c.wfail {
		c.ev(Ev{"e": "werr", "at": nowMS()})
		return 0, &injErr{msg: "broken pipe"}
	}
	if !c.wmute {
		c.ev(Ev{"e": "w", "b": toInts(p), "at": nowMS()})
	}
	c.in = append(c.in, p...)
	if c.onReq != nil {
		c.onReq(len(p))
	}
	return len(p), nil
}

func (c *byteConn) Close() error {
	vs.Point()
	if !c.closed {
		c.closed = true
		c.ev(Ev{"e": "close", "at": nowMS()})
	}
	return nil
}

func (c *byteConn) SetReadDeadline(t time.Time) error {
	c.setDL(t, &c.rdl, &c.rtimer)
	return nil
}

func (c *byteConn) setDL(t time.Time, dl *int64, tm *func()) {
	if *tm != nil {
		(*tm)()
		*tm = nil
	}
	*dl = 0
	if !t.IsZero() {
		*dl = vs.Instant(t)
		if *dl <= 0 {
			*dl = 1
		}
		if d := *dl - vs.NowNS(); d > 0 {
			*tm = vs.Timer(d, func() {})
		}
	}
}

func (c *byteConn) SetWriteDeadline(t time.Time) error {
	c.setDL(t, &c.wdl, &c.wtimer)
	return nil
}

func (c *byteConn) SetDeadline(t time.Time) error {
	c.setDL(t, &c.rdl, &c.rtimer)
	c.setDL(t, &c.wdl, &c.wtimer)
	return nil
}
func (c *byteConn) LocalAddr() net.Addr  { return addr{} }
func (c *byteConn) RemoteAddr() net.Addr { return addr{} }

// reqLen is the length of the first complete request (0: none yet).
func reqLen(b []byte) int {
	s := string(b)
	i := strings.Index(s, "\r\n")
	if i < 0 {
		return 0
	}
	n := i + 2
	if f := strings.Fields(s[:i]); len(f) > 2 && f[0] == "ms" {
		k, err := strconv.Atoi(f[2])
		if err == nil && k >= 0 {
			n += k + 2
		}
	}
	if n > len(b) {
		return 0
	}
	return n
}

func keyClass(err error) string {
	switch {
	case errors.Is(err, memcache.ErrKeyEmpty):
		return "kempty"
	case errors.Is(err, memcache.ErrKeyTooLong):
		return "klong"
	case errors.Is(err, memcache.ErrInvalidKeyFormat):
		return "kformat"
	}
	return ""
}

func wireErr(e Ev, err error) Ev {
	if k := keyClass(err); k != "" {
		e["x"], e["m"] = k, []int{}
		return e
	}
	c, m := errClass(err)
	if c != "se" && c != "ce" {
		m = ""
	}
	e["x"], e["m"] = c, toInts([]byte(m))
	return e
}

// runWire executes one byte-level scenario once with the given cuts.
func runWire(s *WScn, r int, cuts []int, lg *Log, st *vs.Sched) {
	sch := vs.New(vs.Config{Mode: "fifo", Seed: 1, PLimit: 3_000_000})
	sch.Panic = func(g *vs.G, v any, stk string) {
		harnessPanic(v, stk)
		lg.add(Ev{"e": "panic", "msg": fmt.Sprint(v)})
	}
	sch.Livelock = func(*vs.G, string) { lg.add(Ev{"e": "spin"}) }
	lg.add(Ev{"e": "run", "r": r})
	sch.Run(func() {
		got, want := 0, 0
		c := &byteConn{log: lg, cuts: cuts, wfail: -1}
		c.ready = func() bool { return got >= want }
		c.onReq = func(int) {
			for {
				n := reqLen(c.in)
				if n == 0 {
					return
				}
				c.in = c.in[n:]
				if got < len(s.Resp) {
					c.out = append(c.out, toBytes(s.Resp[got])...)
				}
				got++
				if s.EOF != "" && got == len(s.Resp) {
					c.eof, c.werr = true, s.EOF == "eofx"
				}
			}
		}
		opts := []memcache.Option{
			memcache.WithDialFunc(func(string, string, time.Duration) (net.Conn, error) {
				if c.closed {
					return nil, errors.New("refused")
				}
				return c, nil
			}),
			memcache.WithDialErrorLogger(func(error) {}),
			memcache.WithHealthCheckDuration(100_000 * time.Second),
			memcache.WithRetryDuration(1000 * time.Second),
			memcache.WithMaxCommandsPerBatch(s.Batch),
		}
		if s.Buf > 0 {
			opts = append(opts, memcache.WithBufferSize(s.Buf))
		}
		cl, err := memcache.New("fake:11211", 1, opts...)
		if err != nil {
			panic(err)
		}
		vs.Quiesce()
		done := false
		vs.Spawn("actor", func() {
			p := cl.Pipeline()
			var fns []func() Ev
			for i := range s.Cmds {
				m := &s.Cmds[i]
				id := i + 1
				cas, _ := strconv.ParseUint(m.CAS, 10, 64)
				key := string(toBytes(m.K))
				lg.add(Ev{"e": "add", "c": id, "t": m.T, "k": nn(m.K), "v": nn(m.V), "n": digits(uint64(m.N)), "cas": digits(cas),
					"ttl": digits(uint64(m.TTL)), "i": m.I, "cc": m.C})
				var f func() Ev
				blank := func() Ev { return Ev{"k": "", "d": []int{}, "cas": []int{48}, "fl": 0} }
				mget := func(x memcache.MGetResponse, err error) Ev {
					e := blank()
					if err == nil {
						e["k"] = map[memcache.MGetResponseType]string{1: "VA", 2: "HD", 3: "EN"}[x.Type]
					}
					e["d"], e["cas"], e["fl"] = toInts(x.Data), digits(x.CAS), int(x.Flags)
					return wireErr(e, err)
				}
				switch m.T {
				case "mg":
					if m.Fast {
						h, err := p.MGetFast(key, memcache.MGetOptions{N: m.N, CAS: m.C})
						if err != nil {
							f = func() Ev { return wireErr(blank(), err) }
						} else {
							f = func() Ev {
								x, err := h.Result()
								e := mget(x, err)
								memcache.ReleaseGetResponseData(x.Data)
								memcache.ReleaseMGetResult(h)
								return e
							}
						}
					} else {
						h := p.MGet(key, memcache.MGetOptions{N: m.N, CAS: m.C})
						f = func() Ev {
							x, err := h()
							return mget(x, err)
						}
					}
				case "ms":
					v := toBytes(m.V)
					h := p.MSet(key, v, memcache.MSetOptions{CAS: cas, TTL: m.TTL})
					for j := range v {
						v[j] = '#'
					}
					f = func() Ev {
						x, err := h()
						e := blank()
						if err == nil {
							e["k"] = map[memcache.MSetResponseType]string{1: "HD", 2: "NS", 3: "EX", 4: "NF"}[x.Type]
						}
						return wireErr(e, err)
					}
				case "md":
					h := p.MDel(key, memcache.MDelOptions{CAS: cas, I: m.I, TTL: m.TTL})
					f = func() Ev {
						x, err := h()
						e := blank()
						if err == nil {
							e["k"] = map[memcache.MDelResponseType]string{1: "HD", 2: "NF", 3: "EX"}[x.Type]
						}
						return wireErr(e, err)
					}
				case "ve":
					h := p.Version()
					f = func() Ev {
						x, err := h()
						e := blank()
						if err == nil {
							e["k"] = "VERSION"
						}
						e["d"] = toInts([]byte(x.Version))
						return wireErr(e, err)
					}
				case "fa":
					h := p.FlushAll()
					f = func() Ev {
						err := h()
						e := blank()
						if err == nil {
							e["k"] = "OK"
						}
						return wireErr(e, err)
					}
				}
				ff := f
				fns = append(fns, func() Ev {
					lg.add(Ev{"e": "call", "c": id})
					e := ff()
					e["e"], e["c"] = "ret", id
					return e
				})
				if keyOK(m) {
					want++
				}
				if m.End || i == len(s.Cmds)-1 {
					if s.Exec {
						p.Execute()
					}
					for j := range fns {
						if s.Rev {
							j = len(fns) - 1 - j
						}
						lg.add(fns[j]())
					}
					fns = nil
				}
			}
			p.Finish()
			done = true
		})
		vs.Quiesce()
		vs.Advance(5_000_000_000)
		lg.add(Ev{"e": "end", "done": done, "r": r})
		vs.Spawn("closer", func() { _ = cl.Close() })
		vs.Quiesce()
	})
	st.Points += sch.Points
	st.Switches += sch.Switches
}

// keyOK: used only to decide how long the server waits before it answers.
func keyOK(m *WCmd) bool {
	if m.T == "ve" || m.T == "fa" {
		return true
	}
	if len(m.K) == 0 || len(m.K) > 250 {
		return false
	}
	for _, b := range m.K {
		if b <= 32 || b >= 127 {
			return false
		}
	}
	return true
}

// RunWire runs the scenario with the whole answer in one read, then with the cuts.
func RunWire(s *WScn) ([]Ev, vs.Sched) {
	lg := &Log{}
	var st vs.Sched
	if s.Batch == 0 {
		s.Batch = 100
	}
	lg.add(Ev{"e": "cfg", "nc": len(s.Cmds)})
	runWire(s, 1, nil, lg, &st)
	runWire(s, 2, s.Cuts, lg, &st)
	return lg.ev, st
}

func harnessPanic(v any, st string) {
	if fr := panicFrame(st); strings.HasPrefix(fr, "main.") {
		fmt.Fprintf(os.Stderr, "harness panic: %v\n%s\n", v, st)
		os.Exit(3)
	}
	if os.Getenv("DRV_STACK") != "" {
		fmt.Fprintf(os.Stderr, "panic: %v\n%s\n", v, st)
	}
}

// ---------------------------------------------------------------- generators

const asciiKey = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'()*+,-./:;<=>?@[]^_`{|}~\"\\"

func (g *gen) key(n int) []int {
	x := make([]int, n)
	for i := range x {
		x[i] = int(asciiKey[g.Intn(len(asciiKey))])
	}
	return x
}

func (g *gen) u32() uint32 {
	switch g.Intn(5) {
	case 0, 1:
		return 0
	case 2:
		return uint32(1 + g.Intn(99))
	case 3:
		return uint32(g.Uint32())
	default:
		return [...]uint32{1, 9, 10, 100, 4294967295, 2147483648, 1000000000}[g.Intn(7)]
	}
}

func (g *gen) u64() uint64 {
	switch g.Intn(5) {
	case 0, 1:
		return 0
	case 2:
		return uint64(1 + g.Intn(999))
	case 3:
		return g.Uint64()
	default:
		return [...]uint64{1, 10, 18446744073709551615, 9223372036854775808, 10000000000000000000, 99}[g.Intn(6)]
	}
}

func (g *gen) blob(n int) []int {
	x := make([]int, n)
	mode := g.Intn(4)
	for i := range x {
		switch mode {
		case 0:
			x[i] = g.Intn(256)
		case 1:
			x[i] = int("\r\nVAHDENX 012W"[g.Intn(14)])
		case 2:
			x[i] = int("\r\n"[g.Intn(2)])
		default:
			x[i] = 97 + g.Intn(26)
		}
	}
	return x
}

func (g *gen) size() int {
	switch g.Intn(8) {
	case 0:
		return 0
	case 1:
		return 1 + g.Intn(3)
	case 2: // around powers of two
		k := 1 << uint(2+g.Intn(8))
		n := k + g.Intn(7) - 4
		if n < 0 {
			n = 0
		}
		return n
	case 3:
		return g.Intn(700)
	default:
		return g.Intn(40)
	}
}

func cat(xs ...any) []int {
	var o []int
	for _, x := range xs {
		switch v := x.(type) {
		case string:
			o = append(o, toInts([]byte(v))...)
		case []int:
			o = append(o, v...)
		}
	}
	return o
}

// answer is a well-formed answer to a command of type t.
func (g *gen) answer(t string) []int {
	if g.chance(8) {
		return cat(g.pickS("SERVER_ERROR", "SERVER_ERROR out of memory storing object", "SERVER_ERROR x", "SERVER_ERROR  two", "SERVER_ERROR CLIENT_ERROR", "SERVER_ERROR VA 3", "SERVER_ERROR two\nlines", "SERVER_ERROR \nHD", "SERVER_ERROR a\nEN"), "\r\n")
	}
	if g.chance(3) {
		return cat(g.pickS("CLIENT_ERROR", "CLIENT_ERROR bad data chunk", "CLIENT_ERROR bad command line format", "CLIENT_ERROR x\nHD"), "\r\n")
	}
	if g.chance(2) {
		return cat(g.pickS("ERROR", "STORED", "VALUE k 0 3", "MN", "TOUCHED"), "\r\n")
	}
	flags := func() string {
		var f []string
		if g.chance(30) {
			f = append(f, "W")
		}
		if g.chance(25) {
			f = append(f, "X")
		}
		if g.chance(25) {
			f = append(f, "Z")
		}
		if g.chance(50) {
			f = append(f, "c"+strconv.FormatUint(g.u64(), 10))
		}
		g.Shuffle(len(f), func(i, j int) { f[i], f[j] = f[j], f[i] })
		s := ""
		for _, x := range f {
			s += " " + x
		}
		return s
	}
	if g.chance(2) {
		// lengths no value has; modulo 2^64 some of them look fine
		return cat("VA ", g.pickS("18446744073709551619", "18446744073709551616", "36893488147419103235", "184467440737095516190",
			"99999999999999999999", "1073741825", "2147483651", "4294967299", "01073741827", "340282366920938463463374607431768211459"), flags(), "\r\nabc\r\n")
	}
	if g.chance(2) {
		// the value is longer or shorter than announced
		return cat("VA ", g.pickS("2", "3", "4", "0", "1"), flags(), "\r\n", g.pickS("abc", "ab\r", "abc\r", "ab\r\n", "\r"), g.pickS("\r\n", "\n\r", "\rx", "x\n", "EN\r\n", "\r\rEN\r\n"))
	}
	switch t {
	case "mg":
		if g.chance(4) {
			return cat("VA ", g.pickS("003", "0000000003", "00000000000000000000003"), flags(), "\r\nabc\r\n")
		}
		switch g.Intn(6) {
		case 0:
			return cat("EN\r\n")
		case 1:
			return cat("HD", flags(), "\r\n")
		default:
			d := g.blob(g.size())
			return cat("VA ", strconv.Itoa(len(d)), flags(), "\r\n", d, "\r\n")
		}
	case "ms":
		return cat(g.pickS("HD", "HD", "NS", "EX", "NF"), "\r\n")
	case "md":
		return cat(g.pickS("HD", "HD", "NF", "EX"), "\r\n")
	case "ve":
		return cat(g.pickS("VERSION 1.6.18", "VERSION 1", "VERSION 1.6.18-abc def", "VERSION 1.4.0_VA 3", "VERSION v2", "VERSION  1.6.18 ", "VERSION -", "VERSION "+string(toBytes(g.key(1+g.Intn(12))))), "\r\n")
	}
	return cat("OK\r\n")
}

func (g *gen) pickS(xs ...string) string { return xs[g.Intn(len(xs))] }

func (g *gen) wcmd() WCmd {
	m := WCmd{T: g.pickS("mg", "mg", "mg", "ms", "ms", "md", "md", "ve", "fa"), CAS: "0", Fast: g.chance(40), End: g.chance(15)}
	if m.T != "ve" && m.T != "fa" {
		m.K = g.key(g.pick(1, 2, 3, 8, 20, 249, 250))
		m.CAS = strconv.FormatUint(g.u64(), 10)
		m.TTL = g.u32()
	}
	switch m.T {
	case "mg":
		m.N, m.C, m.CAS, m.TTL = g.u32(), g.chance(50), "0", 0
	case "ms":
		m.V = g.blob(g.size())
	case "md":
		m.I = g.chance(50)
	}
	return m
}

func (g *gen) cuts(total int) []int {
	var c []int
	switch g.Intn(4) {
	case 0: // every byte
		for i := 1; i < total; i++ {
			c = append(c, i)
		}
	case 1:
		for i := 1; i < total; i += 1 + g.Intn(3) {
			c = append(c, i)
		}
	default:
		n := 1 + g.Intn(5)
		seen := map[int]bool{}
		for i := 0; i < n; i++ {
			seen[1+g.Intn(total+1)] = true
		}
		for i := 1; i <= total+1; i++ {
			if seen[i] {
				c = append(c, i)
			}
		}
	}
	return c
}

// badKey returns keys around the border of what is allowed.
func (g *gen) badKey() []int {
	switch g.Intn(9) {
	case 0:
		return []int{}
	case 1:
		return g.key(g.pick(251, 252, 300, 1000))
	case 2, 3: // one arbitrary byte somewhere
		k := g.key(1 + g.Intn(6))
		k[g.Intn(len(k))] = g.Intn(256)
		return k
	case 4:
		k := g.key(1 + g.Intn(6))
		k[g.Intn(len(k))] = g.pick(0, 9, 10, 11, 12, 13, 31, 32, 33, 126, 127, 128, 133, 160, 255)
		return k
	case 5: // unicode
		k := g.key(1 + g.Intn(4))
		return append(k, toInts([]byte(g.pickS("é", "世", "\u00a0", "\u2028", "\u0085", "😀", "\ufeff", "\u3000")))...)
	case 6:
		k := g.key(250)
		k[g.pick(0, 100, 249)] = g.pick(32, 10, 127, 200)
		return k
	case 7:
		k := g.key(251)
		k[g.pick(0, 100, 250)] = g.pick(32, 10, 127, 200)
		return k
	default:
		return cat(g.key(1+g.Intn(3)), g.pickS("\r\n", " ", " \r\nflush_all\r\n", "\t", " v\r\nmd x"))
	}
}

func wireScenario(fam string, seed int64, idx int) *WScn {
	g := newGen(fam, seed, idx)
	s := &WScn{Batch: g.pick(100, 100, 100, 1, 2, 3), Rev: g.chance(30), Exec: g.chance(50), Buf: g.pick(0, 0, 0, 16, 64)}
	n := 1 + g.Intn(6)
	if fam == "keys" {
		n = 1 + g.Intn(4)
	}
	total := 0
	for i := 0; i < n; i++ {
		m := g.wcmd()
		if fam == "keys" && m.T != "ve" && m.T != "fa" && g.chance(70) {
			if g.chance(75) {
				m.K = g.badKey()
			} else {
				m.K = g.key(g.pick(1, 248, 249, 250))
			}
		}
		s.Cmds = append(s.Cmds, m)
		if keyOK(&m) {
			a := g.answer(m.T)
			s.Resp = append(s.Resp, a)
			total += len(a)
		}
	}
	if total > 0 {
		s.Cuts = g.cuts(total)
	}
	if g.chance(25) {
		s.EOF = []string{"eof", "eofx"}[g.Intn(2)]
	}
	return s
}

// allKeys enumerates every one-byte key and every byte inside a longer key.
func allKeys(idx int) *WScn {
	b := idx % 256
	pos := (idx / 256) % 4
	t := []string{"mg", "ms", "md", "mg"}[(idx/1024)%4]
	var k []int
	switch pos {
	case 0:
		k = []int{b}
	case 1:
		k = []int{b, 'k', 'e', 'y'}
	case 2:
		k = []int{'k', b, 'y'}
	default:
		k = []int{'k', 'e', b}
	}
	m := WCmd{T: t, K: k, CAS: "0", Fast: (idx/1024)%4 == 3}
	s := &WScn{Batch: 100, Cmds: []WCmd{m, {T: "mg", K: []int{'z'}, CAS: "0"}}}
	if keyOK(&m) {
		s.Resp = append(s.Resp, cat(map[string]string{"mg": "EN\r\n", "ms": "HD\r\n", "md": "NF\r\n"}[t]))
	}
	s.Resp = append(s.Resp, cat("VA 1\r\nq\r\n"))
	return s
}

// parseScript reads a scenario written by the specification.
func parseScript(line []byte) (*WScn, error) {
	s := &WScn{}
	err := json.Unmarshal(line, s)
	return s, err
}
