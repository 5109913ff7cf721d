package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strings"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"github.com/QuangTung97/go-memcache/memcache/netconn"
	"github.com/QuangTung97/go-memcache/zzverif/vs"
)

// Step is one step of an actor.
type Step struct {
	Op  string // get set del ver flush | res exe fin | close | yield | rel | wait | sleep
	P   int    // pipeline
	C   int    // command
	N   int    // yields / ms / value size
	Key string // overrides the key (invalid keys)
}

// Op is one step of the environment script run by the main goroutine.
type Op struct {
	Op string // start quiesce adv yield reply kill dialok close
	A  int
	N  int
	S  string
}

// Weights of the response kinds.
type Kinds struct {
	SE, CE, BAD, BADF, ODD, MAL int // per thousand
}

// Scn is a scenario.
type Scn struct {
	Family  string
	Slots   int
	Lim     int
	Batch   int
	Buf     int
	Retry   int64 // ms
	RTO     int64
	WTO     int64
	Health  int64
	Actors  [][]Step
	Main    []Op
	Plans   []GenPlan // per dial
	Default GenPlan
	Kinds   Kinds
	Sched   vs.Config
	Pad     int // payload padding
	Fin     int64
	NoClose bool
	LogRds  bool
	Auth    bool
	Addr    string
	CTmo    int64
	Omit    map[string]bool // options left at their defaults
}

// World is the state of one run.
type World struct {
	s      *Scn
	rng    *rand.Rand
	log    *Log
	sch    *vs.Sched
	client *memcache.Client

	cmds  map[int]*Cmd
	byKey map[string]*Cmd
	order []*Cmd
	pipes map[int]*memcache.Pipeline
	res   map[int]func() Ev
	rel   map[int]func()
	chk   map[int]func() string
	data  map[int][]byte

	gens    []*Conn
	dials   int
	keepRaw bool
	logRds  bool
	closing bool
	closers int
	ended   map[int]bool
	force   string // kind of the next answer
	late    bool
	sess    map[int]int  // number of the current session of each pipeline
	pubd    map[int]bool // the current session was published
}

func errClass(err error) (string, string) {
	if err == nil {
		return "", ""
	}
	var se memcache.ErrServerError
	if errors.As(err, &se) {
		return "se", se.Message
	}
	var ce memcache.ErrClientError
	if errors.As(err, &ce) {
		return "ce", ce.Message
	}
	var inj *injErr
	if errors.As(err, &inj) {
		if inj.tmo {
			return "tmo", ""
		}
		return "inj", ""
	}
	var bp memcache.ErrBrokenPipe
	if errors.As(err, &bp) {
		return "bp", ""
	}
	switch {
	case errors.Is(err, memcache.ErrConnClosed):
		return "closed", ""
	case errors.Is(err, memcache.ErrAlreadyGotten):
		return "again", ""
	case errors.Is(err, memcache.ErrKeyEmpty):
		return "key", "empty"
	case errors.Is(err, memcache.ErrKeyTooLong):
		return "key", "long"
	case errors.Is(err, memcache.ErrInvalidKeyFormat):
		return "key", "format"
	case errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF):
		return "eof", ""
	case errors.Is(err, errUseClosed):
		return "cls", ""
	case strings.Contains(err.Error(), "dial"):
		return "dial", ""
	}
	return "other", ""
}

func res(k, d string, cas uint64, fl int, err error) Ev {
	e, m := errClass(err)
	if cas > 1<<30 {
		d = fmt.Sprintf("%s#%d", d, cas)
		cas = 1 << 30
	}
	return Ev{"k": k, "d": d, "cas": int(cas), "fl": fl, "e": e, "m": m}
}

var errDial = errors.New("dial refused")

func (w *World) dial(network, address string, timeout time.Duration) (net.Conn, error) {
	vs.Point()
	g := w.dials
	w.dials++
	plan := w.s.Default
	if g < len(w.s.Plans) {
		plan = w.s.Plans[g]
	}
	c := &Conn{w: w, gen: g, plan: plan}
	w.gens = append(w.gens, c)
	w.log.add(Ev{"e": "dial", "g": g, "net": network, "addr": address, "tmo": int(timeout / time.Millisecond), "at": nowMS()})
	if plan.DialDelay > 0 {
		vs.TSleep(time.Duration(plan.DialDelay) * time.Millisecond)
	}
	if plan.DialFail {
		c.closed = true
		w.log.add(Ev{"e": "dialfail", "g": g, "at": nowMS()})
		return nil, errDial
	}
	w.log.add(Ev{"e": "dialok", "g": g, "at": nowMS()})
	return c, nil
}

// anon resolves a command that carries no key.
func (w *World) anon(t string) *Cmd {
	for _, c := range w.order {
		if c.typ == t && c.pub && !c.written && c.sess == w.sess[c.pipe] {
			c.written = true
			return c
		}
	}
	return &Cmd{id: 0, typ: t}
}

// respond picks the answer of the server.
func (w *World) respond(c *Conn, cmd *Cmd) Resp {
	kind, tok, raw := w.respond1(c, cmd)
	r := Resp{kind: kind, tok: tok, raw: raw}
	if (kind == "VA" || kind == "HD") && cmd.typ == "mg" && w.rng.Intn(3) == 0 {
		i := strings.Index(raw, "\r\n")
		extra := ""
		if w.rng.Intn(2) == 0 {
			extra += " W"
			r.fl |= 1
		}
		if w.rng.Intn(3) == 0 {
			extra += " X"
			r.fl |= 2
		}
		if w.rng.Intn(3) == 0 {
			extra += " Z"
			r.fl |= 4
		}
		if w.rng.Intn(2) == 0 {
			r.cas = w.rng.Intn(100000)
			extra += fmt.Sprintf(" c%d", r.cas)
		}
		r.raw = raw[:i] + extra + raw[i:]
	}
	return r
}

// Resp is one answer of the server.
type Resp struct {
	kind, tok, raw string
	cas, fl        int
}

func (w *World) respond1(c *Conn, cmd *Cmd) (kind, tok, raw string) {
	k := w.s.Kinds
	x := w.rng.Intn(1000)
	switch w.force {
	case "VA":
		return w.good(c, cmd, w.rng.Intn(4) == 0)
	case "SE":
		x, k = 0, Kinds{SE: 1}
	case "BAD":
		x, k = 0, Kinds{BAD: 1}
	case "BADF":
		x, k = 0, Kinds{BADF: 1}
	}
	switch {
	case x < k.SE:
		m := []string{"out of memory storing object", "object too large for cache", "temporary failure", "x",
			"first line\nsecond line", "a\nHD", "\nEN"}[w.rng.Intn(7)]
		return "SE", m, "SERVER_ERROR " + m + "\r\n"
	case x < k.SE+k.CE:
		m := []string{"bad data chunk", "bad command line format", "y", "bad\nHD"}[w.rng.Intn(4)]
		return "CE", m, "CLIENT_ERROR " + m + "\r\n"
	case x < k.SE+k.CE+k.BAD:
		m := []string{"ERROR", "FOO BAR", "XX", "WHAT IS THIS 123"}[w.rng.Intn(4)]
		return "BAD", m, m + "\r\n"
	case x < k.SE+k.CE+k.BAD+k.BADF:
		m := []string{"VA x\r\n", "HD\rX", "VA\r\n"}[w.rng.Intn(3)]
		return "BADF", "", m
	}
	if w.rng.Intn(1000) < k.MAL {
		_, _, good := w.good(c, cmd, false)
		raw := w.mutate(good)
		if raw == "" {
			raw = "\r"
		}
		return "ANY", "", raw
	}
	return w.good(c, cmd, w.rng.Intn(1000) < k.ODD)
}

var nasty = []string{
	"\r\n", "\n", "\r", "\x00\r\n", "O\r\n", "OK\r\n", "E\r\n", "EN", "EN\r", "HD c\r\n", "HD c W\r\n", "HD W c\r\n", "VA 2 c\r\nab\r\n",
	"VA\r\n", "VA \r\n", "VA -1\r\n", "VA 99999999999999999999\r\nxx\r\n", "VA 18446744073709551614\r\n", "VA 18446744073709551615\r\nab\r\n",
	"VA 9223372036854775807\r\n", "VA 9223372036854775806\r\nabcd\r\n", "VA5\r\nabcde\r\n", "VA 0\r\n", "VA 3 \rX\r\nabc\r\n", "VA 3\r\nabcXY",
	"VA 3\r\nab\r\n", "VA 5 c1 c2 W\r\nabcde\r\n", "V\r\n", "VAA 3\r\n", "VAL 3\r\n", "SERVER_ERROR\r\n", "CLIENT_ERROR\r\n", "SERVER_ERROR", "SERVER_ERRORX\r\n",
	"SERVER_ERROR \r\n", "CLIENT_ERROR \r\n", "SE\r\n", "CL\r\n", "SERVER\r\n", "ERROR\r\n", "VERSION\r\n", "VERSION", "VERSION \r\n", "VERS\r\n", "VE\r\n",
	"HD c18446744073709551616\r\n", "HD c99999999999999999999999\r\n", "HD\r\r\n", "HD\n\r\n", "NS\rNS\r\n", "EX", "STORED\r\n", "END\r\n", "VALUE k 0 3\r\nabc\r\nEND\r\n",
	"c", "cc\r\n", "HDc1\r\n", "HDcc\r\n", "EN c\r\n", "MN\r\n", "VA 1\r\n\r\n\r\n", "VA 1", "VA  7\r\nabcdefg\r\n", "VA 2W\r\nab\r\n",
}

func (w *World) pick(xs ...string) string { return xs[w.rng.Intn(len(xs))] }

// mutate produces bytes that are, in general, no response.
func (w *World) mutate(good string) string {
	switch w.rng.Intn(6) {
	case 0, 1, 2:
		return nasty[w.rng.Intn(len(nasty))]
	case 3: // drop, duplicate or replace a byte
		b := []byte(good)
		i := w.rng.Intn(len(b))
		switch w.rng.Intn(3) {
		case 0:
			b = append(b[:i], b[i+1:]...)
		case 1:
			b = append(b[:i+1], b[i:]...)
		default:
			const alpha = "\r\nVAHDENc 0WXZS\x00\xff-"
			b[i] = alpha[w.rng.Intn(len(alpha))]
		}
		return string(b)
	case 4: // truncate
		return good[:w.rng.Intn(len(good))] + w.pick("", "\r\n", "\r", "\n")
	default: // random text of the protocol's alphabet
		n := 1 + w.rng.Intn(9)
		s := ""
		for i := 0; i < n; i++ {
			s += w.pick("V", "A", "H", "D", "E", "N", "c", " ", "1", "0", "\r", "\n", "\r\n", "W", "S", "SERVER_ERROR", "-", "VA 2\r\n")
		}
		return s + "\r\n"
	}
}

// good is a correct answer.
func (w *World) good(c *Conn, cmd *Cmd, odd bool) (kind, tok, raw string) {
	switch cmd.typ {
	case "mg":
		switch y := w.rng.Intn(10); {
		case y < 6:
			d := w.payload(fmt.Sprintf("d%d.%d", cmd.id, c.gen), odd)
			if cmd.size > 0 {
				d = strings.Repeat(d+"\r\n", cmd.size/len(d)+1)[:cmd.size]
			} else if cmd.size < 0 {
				d = ""
			}
			return "VA", short(d), fmt.Sprintf("VA %d\r\n%s\r\n", len(d), d)
		case y < 8:
			return "EN", "", "EN\r\n"
		default:
			return "HD", "", "HD\r\n"
		}
	case "ms":
		r := []string{"HD", "HD", "HD", "NS", "EX", "NF"}[w.rng.Intn(6)]
		return r, "", r + "\r\n"
	case "md":
		r := []string{"HD", "NF", "EX"}[w.rng.Intn(3)]
		return r, "", r + "\r\n"
	case "fa":
		return "OK", "", "OK\r\n"
	default:
		d := fmt.Sprintf("1.6.%d", cmd.id)
		return "VER", d, "VERSION " + d + "\r\n"
	}
}

// payload builds the body of a value; some bodies look like protocol text.
func (w *World) payload(tok string, odd bool) string {
	if odd {
		tok += []string{"\r\nEN\r\n", "\r", "\nVA 3\r\n", "\r\n", "HD\r\nHD\r\n"}[w.rng.Intn(5)]
	}
	if w.s.Pad > 0 {
		n := w.rng.Intn(w.s.Pad)
		tok += strings.Repeat("abcdefg\r\nX", n/10+1)[:n]
	}
	return tok
}

func (w *World) unsolicited(c *Conn) (kind, tok, raw string) {
	switch w.rng.Intn(4) {
	case 0:
		return "HD", "", "HD\r\n"
	case 1:
		return "EN", "", "EN\r\n"
	case 2:
		d := fmt.Sprintf("stale%d", c.gen)
		return "VA", d, fmt.Sprintf("VA %d\r\n%s\r\n", len(d), d)
	default:
		return "BAD", "ERROR", "ERROR\r\n"
	}
}

func (w *World) options() []memcache.Option {
	s := w.s
	ms := func(x int64) time.Duration { return time.Duration(x) * time.Millisecond }
	var df netconn.DialFunc = w.dial
	opts := []memcache.Option{
		memcache.WithDialFunc(df),
		memcache.WithDialErrorLogger(func(err error) { w.log.add(Ev{"e": "dlog", "ok": errors.Is(err, errDial)}) }),
	}
	// options that are left out must behave as their documented defaults
	add := func(name string, o memcache.Option) {
		if !s.Omit[name] {
			opts = append(opts, o)
		}
	}
	add("retry", memcache.WithRetryDuration(ms(s.Retry)))
	add("health", memcache.WithHealthCheckDuration(ms(s.Health)))
	add("rto", memcache.WithNetConnOptions(netconn.WithReadTimeout(ms(s.RTO))))
	add("wto", memcache.WithNetConnOptions(netconn.WithWriteTimeout(ms(s.WTO))))
	if s.Buf > 0 {
		opts = append(opts, memcache.WithBufferSize(s.Buf))
	}
	if s.Lim > 0 && !s.Omit["lim"] {
		opts = append(opts, memcache.WithWriteLimit(s.Lim))
	}
	if s.Batch > 0 && !s.Omit["batch"] {
		opts = append(opts, memcache.WithMaxCommandsPerBatch(s.Batch))
	}
	return opts
}

func (w *World) publish(p int) {
	w.pubd[p] = true
	for _, c := range w.order {
		if c.pipe == p {
			c.pub = true
		}
	}
}

func (w *World) step(st Step) {
	lg := w.log
	switch st.Op {
	case "yield":
		for i := 0; i < st.N; i++ {
			vs.Point()
		}
		return
	case "after":
		w.after(st.N)
		return
	case "sleep":
		vs.TSleep(time.Duration(st.N) * time.Millisecond)
		return
	case "close":
		lg.add(Ev{"e": "clo", "at": nowMS()})
		w.closing = true
		w.closers++
		_ = w.client.Close()
		w.closers--
		open := 0
		for _, c := range w.gens {
			if !c.closed {
				open++
			}
		}
		lg.add(Ev{"e": "clod", "alive": w.sch.LibAlive(), "open": open, "at": nowMS()})
		if w.closers == 0 && w.sch.Watch == nil {
			// whatever the library's goroutines still do is done after Close returned
			w.sch.Watch = func(g *vs.G) {
				if !w.late {
					w.late = true
					lg.add(Ev{"e": "late"})
				}
			}
		}
		return
	case "exe":
		lg.add(Ev{"e": "exe", "p": st.P})
		w.publish(st.P)
		w.pipe(st.P).Execute()
		lg.add(Ev{"e": "exed", "p": st.P})
		return
	case "fin":
		lg.add(Ev{"e": "fin", "p": st.P})
		w.publish(st.P)
		w.pipe(st.P).Finish()
		lg.add(Ev{"e": "find", "p": st.P})
		return
	case "res":
		f := w.res[st.C]
		if f == nil {
			return
		}
		lg.add(Ev{"e": "call", "c": st.C})
		if c := w.cmds[st.C]; c.sess == w.sess[c.pipe] && !c.bad {
			w.publish(c.pipe)
		}
		r := f()
		lg.add(Ev{"e": "ret", "c": st.C, "r": r})
		return
	case "rel":
		if f := w.rel[st.C]; f != nil {
			if c := w.chk[st.C]; c != nil {
				lg.add(Ev{"e": "chk", "c": st.C, "d": c()})
				delete(w.chk, st.C)
			}
			f()
			delete(w.rel, st.C)
		}
		return
	case "chk":
		if c := w.chk[st.C]; c != nil {
			lg.add(Ev{"e": "chk", "c": st.C, "d": c()})
		}
		return
	case "scrib":
		// the holder writes over its own payload
		if c := w.chk[st.C]; c != nil {
			lg.add(Ev{"e": "chk", "c": st.C, "d": c()})
			data := w.data[st.C]
			for i := range data {
				data[i] = byte(st.C*31 + i*7)
			}
			lg.add(Ev{"e": "scr", "c": st.C, "d": short(string(data))})
		}
		return
	}
	w.issue(st)
}

func (w *World) pipe(p int) *memcache.Pipeline {
	pp := w.pipes[p]
	if pp == nil {
		pp = w.client.Pipeline()
		w.pipes[p] = pp
	}
	return pp
}

func (w *World) issue(st Step) {
	p := w.pipe(st.P)
	types := map[string]string{"get": "mg", "getf": "mg", "set": "ms", "del": "md", "ver": "ve", "flush": "fa"}
	c := &Cmd{id: st.C, typ: types[st.Op], pipe: st.P, key: fmt.Sprintf("k%d", st.C)}
	if st.Key != "" {
		c.key = st.Key
		if c.key == "EMPTY" {
			c.key = ""
		}
	}
	if st.Op == "get" || st.Op == "getf" {
		c.size = st.N
	}
	if st.Op == "set" && st.N < 0 {
		c.val = ""
	} else if st.Op == "set" {
		c.val = fmt.Sprintf("v%d.", st.C)
		if st.N > 0 {
			c.val += strings.Repeat("z\r\n7", st.N/4+1)[:st.N]
		}
	}
	c.sess = w.sess[st.P]
	if w.pubd[st.P] && st.Key == "" {
		// the previous session is over once the call below has returned
		c.sess++
		defer func() { w.pubd[st.P], w.sess[st.P] = false, c.sess }()
	}
	c.bad = st.Key != ""
	w.cmds[c.id] = c
	w.byKey[c.key] = c
	// adding to a session that was already published waits for that session
	w.log.add(Ev{"e": "add", "c": c.id, "p": st.P, "t": c.typ, "v": short(c.val), "bad": st.Key != ""})
	id := c.id
	switch st.Op {
	case "get":
		f := p.MGet(c.key, memcache.MGetOptions{})
		w.res[id] = func() Ev { r, err := f(); return w.mget(id, r, err) }
	case "getf":
		f, err := p.MGetFast(c.key, memcache.MGetOptions{})
		if err != nil {
			w.res[id] = func() Ev { return res("", "", 0, 0, err) }
		} else {
			w.res[id] = func() Ev {
				r, err := f.Result()
				if w.rel[id] == nil {
					w.rel[id] = func() { memcache.ReleaseMGetResult(f); delete(w.res, id) }
				}
				return w.mget(id, r, err)
			}
		}
	case "set":
		// the value is the front part of a larger buffer of the caller
		n, spare := len(c.val), []int{0, 1, 2, 3, 40}[w.rng.Intn(5)]
		whole := make([]byte, n+spare)
		buf := whole[:n]
		copy(buf, c.val)
		for i := n; i < len(whole); i++ {
			whole[i] = '~'
		}
		f := p.MSet(c.key, buf, memcache.MSetOptions{})
		if string(buf) != c.val || strings.Count(string(whole[n:]), "~") != spare {
			w.log.add(Ev{"e": "wrote", "c": id})
		}
		for i := range whole {
			whole[i] = '!' // the caller may reuse its buffer at once
		}
		w.res[id] = func() Ev {
			r, err := f()
			k := ""
			if r.Type != 0 {
				k = []string{"", "HD", "NS", "EX", "NF"}[r.Type]
			}
			return res(k, "", 0, 0, err)
		}
	case "del":
		f := p.MDel(c.key, memcache.MDelOptions{})
		w.res[id] = func() Ev {
			r, err := f()
			k := ""
			if r.Type != 0 {
				k = []string{"", "HD", "NF", "EX"}[r.Type]
			}
			return res(k, "", 0, 0, err)
		}
	case "ver":
		f := p.Version()
		w.res[id] = func() Ev {
			r, err := f()
			k := ""
			if err == nil {
				k = "VER"
			}
			return res(k, r.Version, 0, 0, err)
		}
	case "flush":
		f := p.FlushAll()
		w.res[id] = func() Ev {
			err := f()
			k := ""
			if err == nil {
				k = "OK"
			}
			return res(k, "", 0, 0, err)
		}
	}
	w.order = append(w.order, c)
	w.log.add(Ev{"e": "added", "c": c.id})
}

func (w *World) mget(id int, r memcache.MGetResponse, err error) Ev {
	k := ""
	if r.Type != 0 {
		k = []string{"", "VA", "HD", "EN"}[r.Type]
	}
	d := short(string(r.Data))
	if k == "VA" && len(r.Data) > 0 {
		data := r.Data
		w.data[id] = data
		w.chk[id] = func() string { return short(string(data)) }
		fast := w.rel[id]
		w.rel[id] = func() {
			memcache.ReleaseGetResponseData(data)
			if fast != nil {
				fast()
			}
		}
	}
	return res(k, d, r.CAS, int(r.Flags), err)
}

func (w *World) q() {
	vs.Quiesce()
	open := 0
	for _, c := range w.gens {
		if !c.closed {
			open++
		}
	}
	w.log.add(Ev{"e": "q", "at": nowMS(), "alive": w.sch.LibAlive(), "open": open})
}

// panicFrame is the function that panicked.
func panicFrame(st string) string {
	i := strings.Index(st, "\npanic(")
	if i < 0 {
		return ""
	}
	ls := strings.Split(st[i+1:], "\n")
	for k := 2; k < len(ls); k += 2 {
		if !strings.HasPrefix(ls[k], "runtime.") && !strings.HasPrefix(ls[k], "panic(") {
			return ls[k]
		}
	}
	return ""
}

// Run executes the scenario and returns the events.
func Run(s *Scn, seed int64) (ev []Ev, stats vs.Sched) {
	w := &World{
		s: s, rng: rand.New(rand.NewSource(seed)), log: &Log{},
		cmds: map[int]*Cmd{}, byKey: map[string]*Cmd{}, pipes: map[int]*memcache.Pipeline{},
		res: map[int]func() Ev{}, rel: map[int]func(){}, chk: map[int]func() string{}, data: map[int][]byte{},
		logRds: s.LogRds, sess: map[int]int{}, pubd: map[int]bool{}, ended: map[int]bool{},
	}
	sch := vs.New(s.Sched)
	w.sch = sch
	sch.Panic = func(g *vs.G, v any, st string) {
		w.log.add(Ev{"e": "panic", "lib": g.Lib, "msg": fmt.Sprint(v)})
		harnessPanic(v, st)
	}
	sch.Livelock = func(g *vs.G, st string) {
		w.log.add(Ev{"e": "spin", "lib": g.Lib})
	}
	w.log.add(Ev{"e": "cfg", "slots": s.Slots, "lim": s.Lim, "batch": s.Batch, "retry": int(s.Retry),
		"rto": int(s.RTO), "wto": int(s.WTO), "health": int(s.Health), "fam": s.Family,
		"addr": s.Addr, "ctmo": int(s.CTmo)})
	sch.Run(func() {
		c, err := memcache.New(s.Addr, s.Slots, w.options()...)
		if err != nil {
			panic(err)
		}
		w.client = c
		for _, op := range s.Main {
			w.mainOp(op)
		}
		w.q()
		vs.Advance(s.Fin * 1_000_000)
		w.q()
		if !s.NoClose && !w.closing {
			vs.Spawn("closer", func() { w.step(Step{Op: "close"}) })
			w.q()
			vs.Advance(s.Fin * 1_000_000)
			w.q()
		} else if w.closing {
			vs.Advance(s.Fin * 1_000_000)
			w.q()
		}
		w.log.add(Ev{"e": "end", "at": nowMS()})
		w.log.off = true
	})
	np := 0
	for p := range w.pipes {
		if p > np {
			np = p
		}
	}
	nc := 0
	for c := range w.cmds {
		if c > nc {
			nc = c
		}
	}
	w.log.ev[0]["nc"], w.log.ev[0]["np"], w.log.ev[0]["ng"] = nc, np, len(w.gens)
	return w.log.ev, *sch
}

func (w *World) mainOp(op Op) {
	switch op.Op {
	case "start":
		steps := w.s.Actors[op.A]
		vs.Spawn(fmt.Sprintf("actor%d", op.A), func() {
			for _, st := range steps {
				w.step(st)
			}
			w.ended[op.A] = true
		})
	case "quiesce":
		w.q()
	case "adv":
		vs.Advance(int64(op.N) * 1_000_000)
		w.q()
	case "yield":
		vs.YieldN(op.N)
	case "reply":
		if op.A < len(w.gens) {
			w.force = op.S
			for i := 0; i < op.N; i++ {
				w.gens[op.A].replyOne()
			}
			w.force = ""
		}
	case "replyall":
		for _, g := range w.gens {
			g.replyAll()
		}
	case "auto":
		for _, g := range w.gens {
			g.plan.Manual = false
			g.replyAll()
		}
		w.s.Default.Manual = false
		for i := range w.s.Plans {
			w.s.Plans[i].Manual = false
		}
	case "tick":
		w.log.add(Ev{"e": "tick", "need": op.S != "free", "quiet": op.S == "quiet", "max": op.A, "at": nowMS()})
	case "mute":
		if op.A < len(w.gens) && !w.gens[op.A].gone() {
			w.gens[op.A].plan.MuteAt = w.gens[op.A].nresp
			w.log.add(Ev{"e": "dead", "g": op.A, "at": nowMS()})
		}
	case "kill":
		if op.A < len(w.gens) {
			g := w.gens[op.A]
			if !g.gone() {
				w.log.add(Ev{"e": "dead", "g": op.A, "at": nowMS()})
				if op.S == "eof" {
					g.kill(io.EOF)
				} else {
					g.kill(&injErr{gen: op.A, msg: "connection reset"})
				}
			}
		}
	}
}
