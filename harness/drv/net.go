package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"time"

	"github.com/QuangTung97/go-memcache/zzverif/vs"
)

// Ev is one observed event.
type Ev map[string]any

// Log collects the events of a run.
type Log struct {
	ev  []Ev
	off bool
}

func (l *Log) add(e Ev) {
	if l.off {
		return
	}
	l.ev = append(l.ev, e)
}

func nowMS() int { return int(vs.NowNS() / 1_000_000) }

type injErr struct {
	gen int
	msg string
	tmo bool
}

func (e *injErr) Error() string   { return e.msg }
func (e *injErr) Timeout() bool   { return e.tmo }
func (e *injErr) Temporary() bool { return false }

var errUseClosed = errors.New("use of closed network connection")

// GenPlan is the fault plan of one connection.
type GenPlan struct {
	DialFail  bool
	DialDelay int64 // ms

	CutAt    int // after this many response bytes delivered: read error (-1: never)
	CutEOF   bool
	CutAfter int // like CutAt, behind the response with this number (0: never)
	MuteAt   int // after this many responses the server sends nothing more (-1: never)
	WFailAt  int // index of the Write call that fails (-1: never)
	WPart    int // bytes of the failing write that are still accepted
	WStall   bool
	GarbPos  int    // before the response with this index, send Garb (-1: never)
	Garb     string // raw bytes
	ExtraN   int    // unsolicited responses after position GarbPos
	Chunk    int    // max bytes per Read (0: unlimited)
	Manual   bool   // replies are produced by script steps only
	LateCut  bool   // when cutting, only after the buffered bytes were read
	ReplyLag int    // replies are held until this many commands are waiting
	KillIdle bool
	WithErr  bool // the last bytes are returned together with the error
}

func okPlan() GenPlan { return GenPlan{CutAt: -1, MuteAt: -1, WFailAt: -1, GarbPos: -1} }

// Conn is the fake network connection of generation gen.
type Conn struct {
	w      *World
	gen    int
	plan   GenPlan
	closed bool

	in      []byte // bytes received by the server, not yet a full command
	pend    []*Cmd // commands received, not answered
	nwritec int    // write calls
	nresp   int    // responses produced

	out    []byte // bytes towards the client
	sent   int    // bytes produced so far
	deliv  int    // bytes delivered so far
	eof    bool
	rerr   error
	rdl    int64
	wdl    int64
	rtimer func()
	wtimer func()
	broken bool
	raw    []byte // everything written (kept when w.keepRaw)
	bad    bool
}

// Cmd is a command issued by the scenario.
type Cmd struct {
	id      int
	typ     string
	key     string
	val     string
	pipe    int
	pub     bool
	written bool
	sess    int
	bad     bool
	size    int
}

func (c *Conn) kill(err error) {
	if c.eof || c.rerr != nil {
		return
	}
	if err == io.EOF {
		c.eof = true
	} else {
		c.rerr = err
	}
}

// Read implements net.Conn.
func (c *Conn) Read(p []byte) (int, error) {
	vs.Point()
	t0 := nowMS()
	ready := func() bool {
		return c.closed || len(c.out) > 0 || c.eof || c.rerr != nil || (c.rdl > 0 && vs.NowNS() >= c.rdl)
	}
	if c.w.logRds {
		c.w.log.add(Ev{"e": "rds", "g": c.gen, "at": t0, "dl": c.rdlMS()})
	}
	vs.Block("net read", ready)
	if vs.Aborting() {
		return 0, errUseClosed
	}
	if c.closed {
		return 0, errUseClosed
	}
	n := len(c.out)
	if n > 0 {
		if n > len(p) {
			n = len(p)
		}
		if c.plan.Chunk > 0 {
			k := 1 + c.w.rng.Intn(c.plan.Chunk)
			if n > k {
				n = k
			}
		}
		if c.plan.CutAt >= 0 && c.deliv+n > c.plan.CutAt {
			n = c.plan.CutAt - c.deliv
		}
	}
	if n > 0 {
		copy(p, c.out[:n])
		c.out = c.out[n:]
		c.deliv += n
		cut := c.plan.CutAt >= 0 && c.deliv >= c.plan.CutAt
		if cut {
			c.cut()
		}
		if c.plan.WithErr && len(c.out) == 0 && (c.eof || c.rerr != nil) {
			c.w.log.add(Ev{"e": "rdx", "g": c.gen, "n": c.deliv, "at": nowMS()})
			if c.eof {
				return n, io.EOF
			}
			return n, c.rerr
		}
		c.w.log.add(Ev{"e": "rd", "g": c.gen, "n": c.deliv, "at": nowMS()})
		return n, nil
	}
	if c.plan.CutAt >= 0 && c.deliv >= c.plan.CutAt {
		c.cut()
	}
	var err error
	why := "inj"
	switch {
	case c.eof:
		err, why = io.EOF, "eof"
	case c.rerr != nil:
		err = c.rerr
	default:
		err, why = &injErr{gen: c.gen, msg: "read timeout", tmo: true}, "tmo"
	}
	c.broken = true
	c.w.log.add(Ev{"e": "rderr", "g": c.gen, "why": why, "at": nowMS(), "t0": t0})
	return 0, err
}

func (c *Conn) rdlMS() int {
	if c.rdl == 0 {
		return -1
	}
	return int(c.rdl / 1_000_000)
}

func (c *Conn) cut() {
	c.out = nil
	if c.plan.CutEOF {
		c.kill(io.EOF)
	} else {
		c.kill(&injErr{gen: c.gen, msg: "connection reset"})
	}
}

// Write implements net.Conn.
func (c *Conn) Write(p []byte) (int, error) {
	vs.Point()
	t0 := nowMS()
	if c.closed {
		return 0, errUseClosed
	}
	idx := c.nwritec
	c.nwritec++
	if c.wdl > 0 && vs.NowNS() >= c.wdl {
		c.broken = true
		c.w.log.add(Ev{"e": "wrerr", "g": c.gen, "why": "tmo", "at": nowMS(), "t0": t0})
		return 0, &injErr{gen: c.gen, msg: "write timeout", tmo: true}
	}
	if c.plan.WFailAt >= 0 && idx >= c.plan.WFailAt {
		k := c.plan.WPart
		if k > len(p) {
			k = len(p)
		}
		if k > 0 {
			c.accept(p[:k])
		}
		if c.plan.WStall {
			c.w.log.add(Ev{"e": "wblk", "g": c.gen, "at": nowMS()})
			vs.Block("net write", func() bool {
				return c.closed || (c.wdl > 0 && vs.NowNS() >= c.wdl)
			})
			if vs.Aborting() || c.closed {
				return k, errUseClosed
			}
			c.broken = true
			c.w.log.add(Ev{"e": "wrerr", "g": c.gen, "why": "tmo", "at": nowMS(), "t0": t0})
			return k, &injErr{gen: c.gen, msg: "write timeout", tmo: true}
		}
		c.broken = true
		c.w.log.add(Ev{"e": "wrerr", "g": c.gen, "why": "inj", "at": nowMS(), "t0": t0})
		return k, &injErr{gen: c.gen, msg: "broken pipe"}
	}
	c.accept(p)
	if c.eof || c.rerr != nil {
		// the peer is gone: the kernel may still accept the bytes
		return len(p), nil
	}
	return len(p), nil
}

// accept feeds bytes to the server.
func (c *Conn) accept(p []byte) {
	if c.w.keepRaw {
		c.raw = append(c.raw, p...)
	}
	c.in = append(c.in, p...)
	var cs []any
	for !c.bad {
		cmd, n, err := c.w.parse(c.in)
		if err != "" {
			c.bad = true
			c.w.log.add(Ev{"e": "badreq", "g": c.gen, "why": err, "at": nowMS()})
			break
		}
		if n == 0 {
			break
		}
		c.in = c.in[n:]
		cs = append(cs, Ev{"c": cmd.id, "v": cmd.seenVal})
		c.pend = append(c.pend, cmd.cmd)
	}
	if len(cs) > 0 {
		c.w.log.add(Ev{"e": "w", "g": c.gen, "cs": cs, "at": nowMS()})
	}
	if !c.plan.Manual && len(c.pend) >= c.plan.ReplyLag {
		c.replyAll()
	}
}

func (c *Conn) replyAll() {
	for len(c.pend) > 0 {
		if !c.replyOne() {
			return
		}
	}
}

func (c *Conn) muted() bool {
	return c.plan.MuteAt >= 0 && c.nresp >= c.plan.MuteAt
}

func (c *Conn) gone() bool { return c.closed || c.eof || c.rerr != nil }

// replyOne answers the oldest unanswered command.
func (c *Conn) replyOne() bool {
	if len(c.pend) == 0 || c.muted() || c.gone() {
		return false
	}
	if c.plan.GarbPos >= 0 && c.nresp >= c.plan.GarbPos && c.plan.Garb != "" {
		g := c.plan.Garb
		c.plan.Garb = ""
		c.push(Resp{kind: "GARB", raw: g})
		c.pend = c.pend[1:]
		return true
	}
	cmd := c.pend[0]
	c.pend = c.pend[1:]
	c.push(c.w.respond(c, cmd))
	if c.plan.ExtraN > 0 && c.nresp > c.plan.GarbPos {
		for ; c.plan.ExtraN > 0; c.plan.ExtraN-- {
			// unsolicited: an answer nobody asked for yet
			k, tok, raw := c.w.unsolicited(c)
			c.push(Resp{kind: k, tok: tok, raw: raw})
		}
	}
	return true
}

func (c *Conn) push(r Resp) {
	c.nresp++
	c.out = append(c.out, r.raw...)
	c.sent += len(r.raw)
	if c.plan.CutAfter > 0 && c.nresp == c.plan.CutAfter {
		c.plan.CutAt = c.sent
	}
	c.w.log.add(Ev{"e": "rs", "g": c.gen, "k": r.kind, "d": r.tok, "cas": r.cas, "fl": r.fl, "end": c.sent})
}

// Close implements net.Conn.
func (c *Conn) Close() error {
	vs.Point()
	if !c.closed {
		c.closed = true
		c.w.log.add(Ev{"e": "close", "g": c.gen, "at": nowMS()})
	}
	return nil
}

// SetReadDeadline implements net.Conn.
func (c *Conn) SetReadDeadline(t time.Time) error {
	if c.rtimer != nil {
		c.rtimer()
		c.rtimer = nil
	}
	c.rdl = 0
	if !t.IsZero() {
		c.rdl = vs.Instant(t)
		if c.rdl <= 0 {
			c.rdl = 1
		}
		if d := c.rdl - vs.NowNS(); d > 0 {
			c.rtimer = vs.Timer(d, func() {})
		}
	}
	if c.closed {
		return errUseClosed
	}
	return nil
}

// SetWriteDeadline implements net.Conn.
func (c *Conn) SetWriteDeadline(t time.Time) error {
	if c.wtimer != nil {
		c.wtimer()
		c.wtimer = nil
	}
	c.wdl = 0
	if !t.IsZero() {
		c.wdl = vs.Instant(t)
		if c.wdl <= 0 {
			c.wdl = 1
		}
		if d := c.wdl - vs.NowNS(); d > 0 {
			c.wtimer = vs.Timer(d, func() {})
		}
	}
	if c.closed {
		return errUseClosed
	}
	return nil
}

// SetDeadline implements net.Conn.
func (c *Conn) SetDeadline(t time.Time) error {
	_ = c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

type addr struct{}

func (addr) Network() string { return "tcp" }
func (addr) String() string  { return "fake:11211" }

// LocalAddr implements net.Conn.
func (c *Conn) LocalAddr() net.Addr { return addr{} }

// RemoteAddr implements net.Conn.
func (c *Conn) RemoteAddr() net.Addr { return addr{} }

type parsed struct {
	cmd     *Cmd
	id      int
	seenVal string
}

// parse takes one full command off the stream.
func (w *World) parse(data []byte) (parsed, int, string) {
	s := string(data)
	i := strings.Index(s, "\r\n")
	if i < 0 {
		if len(s) > 4096 {
			return parsed{}, 0, "line too long"
		}
		return parsed{}, 0, ""
	}
	line := s[:i]
	f := strings.Split(line, " ")
	n := i + 2
	switch f[0] {
	case "version", "flush_all":
		if len(f) != 1 {
			return parsed{}, 0, "bad line " + line
		}
		t := "ve"
		if f[0] == "flush_all" {
			t = "fa"
		}
		c := w.anon(t)
		return parsed{cmd: c, id: c.id}, n, ""
	case "mg", "md", "ms":
		if len(f) < 2 {
			return parsed{}, 0, "bad line " + line
		}
		c := w.byKey[f[1]]
		if c == nil || c.typ != f[0] {
			return parsed{}, 0, "unknown command " + line
		}
		val := ""
		if f[0] == "ms" {
			if len(f) < 3 {
				return parsed{}, 0, "bad line " + line
			}
			ln, err := strconv.Atoi(f[2])
			if err != nil || ln < 0 {
				return parsed{}, 0, "bad length " + line
			}
			if len(s) < n+ln+2 {
				return parsed{}, 0, ""
			}
			val = s[n : n+ln]
			if s[n+ln:n+ln+2] != "\r\n" {
				return parsed{}, 0, "value not terminated " + line
			}
			n += ln + 2
		}
		return parsed{cmd: c, id: c.id, seenVal: short(val)}, n, ""
	}
	return parsed{}, 0, "bad line " + line
}

// short abbreviates long repetitive payloads without losing differences.
func short(s string) string {
	if len(s) <= 40 {
		return s
	}
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return fmt.Sprintf("%s~%d~%x", s[:12], len(s), h)
}
