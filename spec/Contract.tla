------------------------------ MODULE Contract ------------------------------
(***************************************************************************)
(* The observable contract of the memcache client, as a deterministic      *)
(* monitor.  A behaviour of the client is the sequence of events at its    *)
(* two boundaries: the public API (add, call, ret, exe, fin, close) and    *)
(* the network (dial, write, response produced, bytes delivered, error,    *)
(* close).  Step(m, ev) is the monitor's transition function; the state m  *)
(* accumulates in m.viol the pairs <<property, reason>> of the properties  *)
(* the behaviour has broken.                                               *)
(*                                                                         *)
(* The monitor is used twice: Design.tla composes it with a model of the   *)
(* implementation and TLC explores that exhaustively; ContractTrace.tla    *)
(* applies it to behaviours recorded from the real code.                   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
SetMax(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x

V(m, cond, ids, why) ==
    IF cond THEN TLCEval([m EXCEPT !.viol = @ \cup {<<i, why>> : i \in ids}]) ELSE m

NoCmd == [p |-> 0, t |-> "", v |-> "", bad |-> FALSE, s |-> 0, i |-> 0,
          g |-> -1, pos |-> 0, calls |-> 0, rets |-> 0, rdata |-> ""]

NoGen == [st |-> "none", w |-> <<>>, fp |-> <<>>, r |-> <<>>, rd |-> 0, qrd |-> 0, xrd |-> 0, d |-> 0,
          brk |-> FALSE, cause |-> FALSE, stall |-> -1, lastw |-> 0, lastrd |-> 0,
          at |-> 0, re |-> FALSE, closed |-> FALSE, bn |-> 0,
          inv |-> FALSE, any |-> 0, anyB |-> 0, dead |-> -1, slot |-> -1]

NoOp == [on |-> FALSE, s |-> 0, e |-> ""]

Init0 == [on |-> FALSE, viol |-> {}]

Start(ev) ==
    [on |-> TRUE, viol |-> {},
     cfg |-> ev, dlog |-> 0,
     cmd |-> TLCEval([i \in 1..ev.nc |-> NoCmd]),
     gen |-> TLCEval([i \in 0..ev.ng |-> NoGen]),
     ses |-> <<>>,
     cur |-> TLCEval([p \in 0..ev.np |-> 0]),
     op  |-> TLCEval([p \in 0..ev.np |-> NoOp]),
     last |-> -1,          \* latest connection dialled
     sc |-> TLCEval([i \in 0..(ev.slots - 1) |-> -1]),  \* latest connection of each slot
     amb |-> FALSE,        \* the slot of some connection could not be determined
     unh |-> FALSE,        \* some connection was unhealthy since the last quiescent point
     clo |-> 0, cloAt |-> 0, cslow |-> FALSE, clod |-> FALSE, closers |-> 0,
     n |-> 0, \* event counter
     asg |-> <<>>,         \* first-written connection of each pipeline, in assignment order
     asgOf |-> TLCEval([p \in 0..ev.np |-> 0]),
     seqadd |-> TRUE,
     act |-> TLCEval([i \in -1..(ev.slots - 1) |-> 0]), pings |-> TLCEval([i \in -1..(ev.slots - 1) |-> 0]), tick |-> 0,
     now |-> 0, pub |-> 0]

Single(m) == m.cfg.slots = 1

(***************************************************************************)
(* What a response means for a command of a given type.                    *)
(***************************************************************************)
\* "ANY": bytes that are no response; what the client makes of them and of
\* what follows on the same connection is left open.
Valid(t, k) ==
    \/ t = "mg" /\ k \in {"VA", "HD", "EN"}
    \/ t = "ms" /\ k \in {"HD", "NS", "EX", "NF"}
    \/ t = "md" /\ k \in {"HD", "NF", "EX"}
    \/ t = "ve" /\ k = "VER"
    \/ t = "fa" /\ k = "OK"

\* the result an API caller must see for response r to a command of type t
IsResult(t, r, x) ==
    CASE r.k = "SE" -> x.e = "se" /\ x.m = r.d
      [] r.k = "CE" -> x.e = "ce" /\ x.m = r.d
      [] Valid(t, r.k) -> x.e = "" /\ x.k = r.k /\ x.d = r.d /\ (t = "mg" => x.cas = r.cas /\ x.fl = r.fl)
      [] OTHER -> FALSE

\* a response that makes the connection unusable
Fatal(t, r) == r.k = "CE" \/ (r.k # "SE" /\ ~Valid(t, r.k))

(***************************************************************************)
(* Sessions and batches                                                    *)
(***************************************************************************)
Cmds(m, s) == m.ses[s].cs
BatchNo(m, c) == (m.cmd[c].i - 1) \div m.cfg.batch
BatchSize(m, s, b) == MinOf(m.cfg.batch, Len(Cmds(m, s)) - b * m.cfg.batch)
NBatches(m, s) == (Len(Cmds(m, s)) + m.cfg.batch - 1) \div m.cfg.batch
Written(m, c) == m.cmd[c].g >= 0

\* the connection has delivered garbage
AnyAt(g) == g.any > 0 /\ g.rd > g.anyB

GenHealthy(g) == g.st = "open" /\ ~g.brk
Healthy(m) == m.last >= 0 /\ GenHealthy(m.gen[m.last])
AnyStall(m) == \E i \in DOMAIN m.gen : m.gen[i].stall >= 0

\* number of commands of gen whose batch has not seen a byte of its answer
Out(g) == Cardinality({i \in (g.d + 1)..Len(g.w) : g.fp[i] > g.d})

MarkPublishedBroken(m) ==
    [m EXCEPT !.unh = TRUE,
              !.ses = TLCEval([s \in DOMAIN m.ses |->
                         IF m.ses[s].pub > 0 THEN [m.ses[s] EXCEPT !.brk = TRUE] ELSE m.ses[s]])]

\* publication of session s starts (how: 1 publishing)
Publish(m, s) ==
    IF s = 0 \/ m.ses[s].pub > 0 THEN m
    ELSE LET unhealthy == m.unh \/ (Single(m) /\ ~Healthy(m))
                          \/ (~Single(m) /\ \E i \in DOMAIN m.gen : m.gen[i].st \in {"dialing", "failed", "closed"} \/ m.gen[i].brk)
         IN [m EXCEPT !.ses[s].pub = 1, !.ses[s].pubN = m.n, !.ses[s].brk = unhealthy,
                      !.ses[s].late = (m.clo > 0), !.ses[s].dead = m.clod, !.pub = @ + 1]

Settled(m, c, limb) ==
    IF Written(m, c)
    THEN LET g == m.gen[m.cmd[c].g] IN
         \/ g.brk
         \/ (~AnyAt(g) /\ Len(g.r) >= m.cmd[c].pos /\ g.rd >= g.r[m.cmd[c].pos].end)
    ELSE ~limb

\* published batches none of whose commands was written yet
Waiting(m) ==
    {<<s, b>> \in UNION {{<<s, b>> : b \in 0..(NBatches(m, s) - 1)} :
                         s \in {s \in DOMAIN m.ses : m.ses[s].pub > 0 /\ ~m.ses[s].done}} :
        ~Written(m, Cmds(m, s)[b * m.cfg.batch + 1])}

\* besides the limit of commands, the client bounds the number of batches in flight
InFlightBatches == 128
OutBatches(g) == Cardinality({g.fp[i] : i \in (g.d + 1)..Len(g.w)})

LimBlocked(m) ==
    /\ Healthy(m)
    /\ LET out == Out(m.gen[m.last]) IN
       \/ AnyAt(m.gen[m.last])
       \/ OutBatches(m.gen[m.last]) >= InFlightBatches
       \/ \E x \in Waiting(m) :
             LET k == BatchSize(m, x[1], x[2]) IN k <= m.cfg.lim /\ out + k > m.cfg.lim

(***************************************************************************)
(* API events                                                              *)
(***************************************************************************)
Add(m, ev) ==
    LET c == ev.c
        p == ev.p
        s0 == m.cur[p]
        m0 == [m EXCEPT !.cmd[c] = [NoCmd EXCEPT !.p = p, !.t = ev.t, !.v = ev.v, !.bad = ev.bad]]
    IN IF ev.bad THEN [m0 EXCEPT !.op[p] = [on |-> TRUE, s |-> 0, e |-> "add"]]
       ELSE IF s0 # 0 /\ m.ses[s0].pub = 0
       THEN [m0 EXCEPT !.ses[s0].cs = Append(@, c),
                       !.cmd[c].s = s0, !.cmd[c].i = Len(m.ses[s0].cs) + 1,
                       !.op[p] = [on |-> TRUE, s |-> 0, e |-> "add"]]
       ELSE LET s == Len(m.ses) + 1
                first == m.asgOf[p] = 0
                over == \E q \in DOMAIN m.op : q # p /\ m.op[q].on /\ m.op[q].e = "add"
            IN [m0 EXCEPT !.ses = Append(@, [p |-> p, cs |-> <<c>>, pub |-> 0, pubN |-> 0, retN |-> 0,
                                              brk |-> FALSE, late |-> FALSE, dead |-> FALSE, done |-> FALSE,
                                              sib |-> 0, fst |-> 0, wn |-> 0, wm |-> 0]),
                          !.cur[p] = s,
                          !.cmd[c].s = s, !.cmd[c].i = 1,
                          !.asg = IF first THEN Append(@, [p |-> p, g |-> -1]) ELSE @,
                          !.asgOf[p] = IF first THEN Len(m.asg) + 1 ELSE @,
                          !.seqadd = @ /\ ~(first /\ over),
                          !.op[p] = [on |-> TRUE, s |-> s0, e |-> "add"]]

OpEnd(m, p) ==
    LET s == m.op[p].s IN
    IF s # 0 /\ m.op[p].e \in {"call", "fin", "add"}
    THEN [m EXCEPT !.op[p] = NoOp, !.ses[s].done = TRUE]
    ELSE [m EXCEPT !.op[p] = NoOp]

Exe(m, ev) ==
    LET s == m.cur[ev.p]
        m1 == IF s # 0 /\ ~m.ses[s].done THEN Publish(m, s) ELSE m
    IN [m1 EXCEPT !.op[ev.p] = [on |-> TRUE, s |-> s, e |-> "exe"]]

Exed(m, ev) ==
    LET s == m.op[ev.p].s
        m1 == IF s # 0 /\ m.ses[s].pub = 1
              THEN [m EXCEPT !.ses[s].pub = 2, !.ses[s].retN = m.n] ELSE m
    IN [m1 EXCEPT !.op[ev.p] = NoOp]

Fin(m, ev) ==
    LET s == m.cur[ev.p]
        live == s # 0 /\ ~m.ses[s].done
        m1 == IF live THEN Publish(m, s) ELSE m
    IN [m1 EXCEPT !.op[ev.p] = [on |-> TRUE, s |-> IF live THEN s ELSE 0, e |-> "fin"]]

Call(m, ev) ==
    LET c == ev.c
        cm == m.cmd[c]
        s == cm.s
        m1 == IF ~cm.bad /\ cm.calls = 0 /\ ~m.ses[s].done THEN Publish(m, s) ELSE m
    IN [m1 EXCEPT !.cmd[c].calls = @ + 1,
                  !.op[cm.p] = [on |-> TRUE, s |-> IF cm.bad \/ cm.calls > 0 THEN 0 ELSE s, e |-> "call"]]

\* number of responses of which at least one byte has been delivered
AdvD(g, d) ==
    d + Cardinality({k \in (d + 1)..Len(g.r) : (IF k = 1 THEN 0 ELSE g.r[k - 1].end) < g.rd})

\* the bytes delivered include part of a response that spoils the connection
SeenFatal(m, g) ==
    \E i \in 1..MinOf(g.d, Len(g.r)) :
        IF i > Len(g.w) THEN TRUE
        ELSE IF g.w[i] = 0 THEN g.r[i].k # "VER"
        ELSE Fatal(m.cmd[g.w[i]].t, g.r[i])

\* an error that does not come from the command's own response needs a cause
ErrorLegit(m, c) ==
    LET cm == m.cmd[c]
        se == m.ses[cm.s]
    IN IF Written(m, c) THEN m.gen[cm.g].brk \/ m.gen[cm.g].cause
       ELSE se.brk

\* every answer of the command's batch had been received when the client was last at rest
\* with this connection working, or at the latest together with the error of the connection
BatchAnswered(m, c) ==
    LET cm == m.cmd[c]
        cs == Cmds(m, cm.s)
        b == BatchNo(m, c)
    IN /\ Written(m, c)
       /\ LET g == m.gen[cm.g] IN
          /\ ~g.inv /\ g.any = 0
          /\ \A i \in (b * m.cfg.batch + 1)..MinOf((b + 1) * m.cfg.batch, Len(cs)) :
                LET d == m.cmd[cs[i]] IN d.g = cm.g /\ Len(g.r) >= d.pos /\ MaxOf(g.qrd, g.xrd) >= g.r[d.pos].end

\* Answers nobody asked for, on a connection that was still usable when the
\* command was published, may be taken for the command's own (the protocol
\* carries no identifiers).
Surplus(m, c) ==
    LET cm == m.cmd[c] IN
    IF Written(m, c) THEN {}
    ELSE UNION {LET g == m.gen[i] IN
                IF g.bn # 0 /\ g.bn < m.ses[cm.s].pubN THEN {}
                ELSE {g.r[k] : k \in (Len(g.w) + 1)..Len(g.r)} : i \in DOMAIN m.gen}

Loose(m, c) ==
    LET cm == m.cmd[c] IN
    IF Written(m, c) THEN AnyAt(m.gen[cm.g]) /\ cm.pos >= m.gen[cm.g].any
    ELSE \E i \in DOMAIN m.gen : /\ AnyAt(m.gen[i])
                                 /\ m.gen[i].bn = 0 \/ m.gen[i].bn >= m.ses[cm.s].pubN

OwnResponse(m, c) ==
    LET cm == m.cmd[c] IN
    IF Written(m, c) /\ Len(m.gen[cm.g].r) >= cm.pos /\ m.gen[cm.g].rd >= m.gen[cm.g].r[cm.pos].end
    THEN {m.gen[cm.g].r[cm.pos]} ELSE Surplus(m, c)

CheckRet(m, ev) ==
    LET c == ev.c
        cm == m.cmd[c]
        x == ev.r
    IN
    IF cm.bad
    THEN V(m, x.e # "key", {"C05"}, "invalid key not rejected")
    ELSE IF cm.calls > 1
    THEN V(m, x.e # "again", {"C16"}, "second call of a result function did not return ErrAlreadyGotten")
    ELSE IF Loose(m, c) /\ x.e \notin {"key", "again"}
    THEN LET foreign == /\ x.e = "" /\ x.d # ""
                        /\ \E i \in DOMAIN m.gen : /\ (Written(m, c) => i # m.cmd[c].g)
                                                   /\ ~AnyAt(m.gen[i])
                                                   /\ \E k \in DOMAIN m.gen[i].r : m.gen[i].r[k].d = x.d
         IN V(V(m, foreign, {"C01", "C09"}, "bytes of another connection used as a response"),
              x.e = "closed" /\ m.clo = 0, {"C08"}, "ErrConnClosed without Close")
    ELSE
    LET own == OwnResponse(m, c)
        se == m.ses[cm.s]
        \* answers nobody asked for desynchronised an earlier connection
        reconn == \E i \in DOMAIN m.gen : i >= m.cfg.slots /\ m.gen[i].st # "none"
    IN CASE x.e = "key" -> V(m, TRUE, {"C05"}, "valid key rejected")
         [] x.e = "again" -> V(m, TRUE, {"C16"}, "first call of a result function returned ErrAlreadyGotten")
         [] x.e = "" ->
              LET ok == \E r \in own : IsResult(cm.t, r, x) IN
              V(V(m, ~ok, {"C01"}, "result is not the command's own response"),
                ~ok /\ reconn, {"C09"}, "bytes of a previous connection used as a response")
         [] x.e \in {"se", "ce"} ->
              LET ok == \E r \in own : IsResult(cm.t, r, x)
                  \* the error of the connection may be a CLIENT_ERROR another command received
                  shared == x.e = "ce" /\ ErrorLegit(m, c)
              IN V(V(V(m, ~ok /\ ~shared, {"C01"}, "error result is not the command's own response"),
                     ~ok /\ ~shared /\ reconn, {"C09"}, "bytes of a previous connection used as a response"),
                   ~ok /\ ~shared /\ \E r \in own : Fatal(cm.t, r), {"C14"}, "an answer that is not valid was not reported as such")
         [] x.e = "closed" ->
              LET \* never accepted, or answered by garbage that was decoded after Close had begun
                  ok == /\ m.clo > 0
                        /\ \/ se.late /\ \A j \in 1..Len(se.cs) : ~Written(m, se.cs[j])
                           \/ Written(m, c) /\ SeenFatal(m, m.gen[cm.g])
              IN V(V(m, ~ok, {"C11"}, "accepted command failed with ErrConnClosed"),
                   m.clo = 0, {"C08"}, "ErrConnClosed without Close")
         [] OTHER ->
              LET legit == ErrorLegit(m, c) \/ (\E r \in own : Fatal(cm.t, r))
                  se2 == \E r \in own : r.k = "SE"
                  inval == \/ \E r \in own : Fatal(cm.t, r)
                           \/ IF Written(m, c) THEN m.gen[cm.g].inv ELSE \E i \in DOMAIN m.gen : m.gen[i].inv \/ m.gen[i].any > 0
              IN V(V(V(V(m, legit /\ BatchAnswered(m, c), {"C08"}, "error for a command that was answered completely"),
                     legit /\ x.e = "bp" /\ ~inval, {"C08", "C14"}, "an invalid response was reported although none was received"),
                     ~legit, {"C08"}, "error without a cause on the connection"),
                   ~legit /\ se2, {"C14"}, "SERVER_ERROR not reported as such")

Ret(m, ev) ==
    LET c == ev.c
        cm == m.cmd[c]
        m1 == V(CheckRet(m, ev), ev.r.e # "" /\ (ev.r.d # "" \/ ev.r.k # "" \/ ev.r.cas # 0 \/ ev.r.fl # 0), {"C01"}, "a failed command returned a result")
        m2 == V(m1, ~cm.bad /\ cm.calls = 1 /\ m.ses[cm.s].dead /\ ev.r.e # "closed", {"C11"},
                "command published after Close did not fail with ErrConnClosed")
        m3 == [m2 EXCEPT !.cmd[c].rets = @ + 1,
                         !.cmd[c].rdata = IF cm.calls = 1 THEN ev.r.d ELSE @]
    IN OpEnd(m3, cm.p)

Chk(m, ev) ==
    V(m, m.cmd[ev.c].rdata # ev.d, {"C17"}, "returned data changed while its holder still owned it")

(***************************************************************************)
(* Network events                                                          *)
(***************************************************************************)
ReservedPings(m) == m.cfg.health < 10000000

WriteOne(m, g, x) ==
    LET c == x.c IN
    IF c = 0
    THEN LET m1 == V(m, ~ReservedPings(m), {"C06"}, "a command nobody issued was written")
             m2 == V(m1, m.clod, {"C11"}, "command written after Close returned")
         IN [m2 EXCEPT !.gen[g].w = Append(@, 0),
                       !.gen[g].fp = Append(@, Len(m.gen[g].w) + 1),
                       !.pings[m.gen[g].slot] = @ + 1]
    ELSE
    LET cm == m.cmd[c]
        s == cm.s
        se == m.ses[s]
        b == BatchNo(m, c)
        firstOfBatch == cm.i = b * m.cfg.batch + 1
        gg == m.gen[g]
        pos == Len(gg.w) + 1
        size == BatchSize(m, s, b)
        out == Out(gg)
        m1 == V(m, Written(m, c), {"C06"}, "command written twice")
        m2 == V(m1, se.pub = 0, {"C16"}, "command written before its pipeline was executed")
        m3 == V(m2, se.wm >= cm.i \/ (se.wn < cm.i - 1 /\ ~se.brk), {"C06"}, "commands of a pipeline written out of order")
        m4 == V(m3, cm.v # x.v, {"C04"}, "value written differs from the value given")
        m5 == V(m4, ~AnyAt(gg) /\ firstOfBatch /\ size <= m.cfg.lim /\ out + size > m.cfg.lim, {"C12"}, "write limit exceeded")
        m6 == V(m5, m.clod, {"C11"}, "command written after Close returned")
        \* fairness, for connections shared by several pipelines
        fifo == Single(m) /\ cm.i = 1 /\
                \E y \in DOMAIN m.ses :
                   /\ y # s
                   /\ m.ses[y].retN > 0 /\ m.ses[y].retN < se.pubN
                   /\ ~m.ses[y].brk /\ ~m.ses[y].late
                   /\ ~Written(m, m.ses[y].cs[1])
        m7 == V(m6, fifo, {"C13"}, "a pipeline executed later overtook one executed earlier")
        waitingSes(y) == y # s /\ m.ses[y].pub = 2 /\ ~m.ses[y].brk /\ ~m.ses[y].late /\ ~Written(m, m.ses[y].cs[1])
        m8 == IF ~Single(m) THEN m7 ELSE
              TLCEval([m7 EXCEPT !.ses = TLCEval([y \in DOMAIN m7.ses |->
                 IF ~waitingSes(y) THEN m7.ses[y]
                 ELSE IF b > 0 THEN [m7.ses[y] EXCEPT !.sib = @ + 1]
                 ELSE IF cm.i = 1 THEN [m7.ses[y] EXCEPT !.fst = @ + 1]
                 ELSE m7.ses[y]])])
        starved == Single(m) /\ m.cfg.batch <= m.cfg.lim /\
                   \E y \in DOMAIN m8.ses : waitingSes(y) /\
                      m8.ses[y].sib > m.cfg.lim + m.cfg.batch * (m8.ses[y].fst + 2)
        m9 == V(m8, starved, {"C13"}, "a long pipeline starved a short one")
        \* one connection per pipeline
        a == m.asgOf[cm.p]
        ag == m.asg[a].g
        m10 == V(m9, ag >= 0 /\ m.gen[ag].slot >= 0 /\ gg.slot >= 0 /\ m.gen[ag].slot # gg.slot, {"C19"}, "a pipeline used two connections")
    IN [m10 EXCEPT !.cmd[c].g = IF Written(m, c) THEN @ ELSE g,
                   !.cmd[c].pos = IF Written(m, c) THEN @ ELSE pos,
                   !.asg[a].g = IF @ = -1 THEN g ELSE @,
                   !.ses[s].wn = @ + 1, !.ses[s].wm = MaxOf(@, cm.i),
                   !.act[gg.slot] = @ + 1,
                   !.gen[g].w = Append(@, c),
                   !.gen[g].fp = Append(@, IF firstOfBatch \/ pos = 1 THEN pos
                                          ELSE IF gg.w[pos - 1] = 0 THEN pos ELSE gg.fp[pos - 1])]

WriteAll(m, g, cs) == FoldLeft(LAMBDA a, x : TLCEval(WriteOne(a, g, x)), m, cs)

W(m, ev) ==
    LET m1 == WriteAll(m, ev.g, ev.cs)
    IN [m1 EXCEPT !.gen[ev.g].lastw = ev.at]

Rs(m, ev) ==
    LET g == m.gen[ev.g]
        n == Len(g.r)
    IN [m EXCEPT !.gen[ev.g].any = IF ev.k = "ANY" /\ @ = 0 THEN n + 1 ELSE @,
                 !.gen[ev.g].anyB = IF ev.k = "ANY" /\ g.any = 0 THEN (IF n = 0 THEN 0 ELSE g.r[n].end) ELSE @,
                 !.gen[ev.g].r = Append(@, [k |-> ev.k, d |-> ev.d, cas |-> ev.cas, fl |-> ev.fl, end |-> ev.end])]

Rd(m, ev) ==
    LET g1 == TLCEval([m.gen[ev.g] EXCEPT !.rd = ev.n, !.lastrd = ev.at])
        g2 == TLCEval([g1 EXCEPT !.d = AdvD(g1, g1.d)])
        g3 == [g2 EXCEPT !.cause = @ \/ SeenFatal(m, g2), !.inv = @ \/ SeenFatal(m, g2)]
        m1 == [m EXCEPT !.gen[ev.g] = g3]
    IN IF g3.cause /\ ~m.gen[ev.g].cause THEN MarkPublishedBroken(m1) ELSE m1

\* Bytes returned together with the error of the connection.  The next read returns the
\* error again: the client need not act on it before.
Rdx(m, ev) ==
    LET m1 == Rd(m, ev) IN
    IF m.gen[ev.g].brk THEN m1
    ELSE MarkPublishedBroken([m1 EXCEPT !.gen[ev.g].xrd = ev.n, !.gen[ev.g].cause = TRUE])

Bn(m, g) == IF m.gen[g].bn = 0 THEN m.n ELSE m.gen[g].bn

Break(m, g) ==
    MarkPublishedBroken([m EXCEPT !.gen[g].brk = TRUE, !.gen[g].cause = TRUE, !.gen[g].bn = Bn(m, g)])

RdErr(m, ev) ==
    LET m1 == V(m, ev.why = "tmo" /\ ev.at - ev.t0 # m.cfg.rto, {"C23"}, "read timed out at the wrong time")
    IN Break(m1, ev.g)

WrErr(m, ev) ==
    LET m1 == V(m, ev.why = "tmo" /\ ev.at - ev.t0 # m.cfg.wto, {"C23"}, "write timed out at the wrong time")
    IN \* the writer may have stopped the connection before the reader had handled what it got
       Break([m1 EXCEPT !.gen[ev.g].stall = -1, !.gen[ev.g].xrd = 0], ev.g)

CloseGen(m, ev) ==
    LET g == m.gen[ev.g]
        m1 == V(m, ~g.cause /\ m.clo = 0, {"C14"}, "connection closed without a reason")
    IN IF m.clo > 0 /\ ~g.cause
       THEN [m1 EXCEPT !.gen[ev.g].brk = TRUE, !.gen[ev.g].closed = TRUE, !.gen[ev.g].stall = -1, !.gen[ev.g].bn = Bn(m, ev.g)]
       ELSE MarkPublishedBroken([m1 EXCEPT !.gen[ev.g].brk = TRUE, !.gen[ev.g].closed = TRUE, !.gen[ev.g].stall = -1, !.gen[ev.g].bn = Bn(m, ev.g)])

Dial(m, ev) ==
    LET g == ev.g
        re == g >= m.cfg.slots
        cand == IF ~re THEN {g}
                ELSE IF Single(m) THEN {0}
                ELSE {i \in DOMAIN m.sc : m.sc[i] >= 0 /\ m.gen[m.sc[i]].closed}
        known == ~m.amb /\ Cardinality(cand) = 1
        slot == IF known THEN CHOOSE i \in cand : TRUE ELSE -1
        pv == IF re /\ known THEN m.gen[m.sc[slot]] ELSE NoGen
        m1 == V(m, re /\ known /\ ~pv.cause, {"C10", "C11"}, "dialled although the connection was healthy")
        m2 == V(m1, re /\ known /\ m.clo = 0 /\ pv.st = "failed" /\ pv.re /\ ev.at < pv.at + m.cfg.retry, {"C10"},
                "redial before the retry duration elapsed")
        m3 == V(m2, m.clod, {"C11"}, "dialled after Close returned")
        m4 == V(m3, re /\ m.clo = 0 /\ cand = {}, {"C10"}, "dialled although the connections were healthy")
        m5 == V(m4, ev.net # "tcp" \/ ev.addr # m.cfg.addr, {"C23", "C10"}, "dialled another address")
        m6 == V(m5, ev.tmo # m.cfg.ctmo, {"C23"}, "wrong connect timeout")
    IN [m6 EXCEPT !.gen[g] = [NoGen EXCEPT !.st = "dialing", !.at = ev.at, !.re = re, !.slot = slot],
                  !.last = g,
                  !.amb = @ \/ ~known,
                  !.sc = IF known THEN TLCEval([@ EXCEPT ![slot] = g]) ELSE @]

DialOk(m, ev) ==
    LET open == {i \in DOMAIN m.gen : m.gen[i].st = "open" /\ ~m.gen[i].closed}
        m1 == V(m, Cardinality(open) >= m.cfg.slots, {"C10"}, "more open connections than slots")
    IN \* until the next quiescent point commands may still meet the connection it replaces
       [m1 EXCEPT !.gen[ev.g].st = "open", !.unh = @ \/ m.gen[ev.g].re]

\* every failed dial is reported to the dial error logger once
DialLog(m, ev) ==
    LET m1 == V(m, ~ev.ok \/ m.dlog = 0, {"C10"}, "a dial error was reported that did not happen")
    IN [m1 EXCEPT !.dlog = MaxOf(@ - 1, 0)]

DialFail(m, ev) ==
    MarkPublishedBroken([m EXCEPT !.dlog = @ + 1, !.gen[ev.g].st = "failed", !.gen[ev.g].brk = TRUE, !.gen[ev.g].cause = TRUE,
                                  !.gen[ev.g].at = ev.at, !.gen[ev.g].closed = TRUE])

(***************************************************************************)
(* Close                                                                   *)
(***************************************************************************)
\* something a Close may have to wait for
Busy(g) == \/ g.st = "dialing"
           \/ g.stall >= 0
           \/ g.st = "open" /\ ~g.brk /\ Len(g.w) > 0 /\ (Len(g.r) < Len(g.w) \/ g.rd < g.r[Len(g.w)].end)

\* publications that overlap the start of Close may go either way
Clo(m, ev) == [m EXCEPT !.clo = @ + 1, !.cloAt = ev.at, !.closers = @ + 1,
                        !.cslow = @ \/ m.clo > 0 \/ \E i \in DOMAIN m.gen : Busy(m.gen[i]),
                        !.ses = TLCEval([s \in DOMAIN m.ses |->
                           IF m.ses[s].pub = 1 THEN [m.ses[s] EXCEPT !.late = TRUE] ELSE m.ses[s]])]

Clod(m, ev) ==
    LET m1 == V(m, ev.open > 0, {"C11"}, "Close returned with an open connection")
        m2 == V(m1, ~m.cslow /\ ev.at > m.cloAt, {"C11"}, "Close waited although nothing was under way")
    IN [m2 EXCEPT !.clod = TRUE, !.closers = @ - 1]

(***************************************************************************)
(* Quiescent points: no goroutine can take a step without time passing.    *)
(***************************************************************************)
AtQ(m, ev) ==
    LET stall == AnyStall(m)
        limb == LimBlocked(m)
        now == ev.at
        healthy == Healthy(m)
        waiting == {x \in Waiting(m) : ~m.ses[x[1]].brk /\ ~m.ses[x[1]].late /\ ~(m.clo > 0 /\ m.ses[x[1]].pub = 1)}
        \* calls that must be over
        hang == {p \in DOMAIN m.op :
                   /\ m.op[p].on
                   /\ ~stall
                   /\ \/ m.op[p].s = 0
                      \/ m.op[p].e = "exe"
                      \/ m.ses[m.op[p].s].done
                      \/ (/\ m.ses[m.op[p].s].pub > 0
                          /\ \A j \in 1..Len(Cmds(m, m.op[p].s)) :
                               LET c == Cmds(m, m.op[p].s)[j] IN
                               IF Written(m, c) THEN Settled(m, c, limb)
                               ELSE (Single(m) /\ ~limb) \/ m.clod)}
        m1 == V(m, hang # {}, {"C07"}, "a call whose outcome is known did not return")
        lg == m.gen[m.last]
        m2 == V(m1, Single(m) /\ healthy /\ ~stall /\ waiting # {} /\ ~limb /\ ~AnyAt(lg), {"C07", "C12"},
                "executed commands are not written although the limit allows it")
        \* redial obligations
        mustDial == /\ Single(m) /\ m.clo = 0 /\ ~stall /\ m.last >= 0
                    /\ lg.st # "dialing" /\ lg.brk
                    /\ ~(lg.st = "failed" /\ lg.re /\ now <= lg.at + m.cfg.retry)
                    /\ ~(lg.st = "failed" /\ ~lg.re /\ m.pub = 0)
        m3 == V(m2, mustDial, {"C10"}, "broken connection is not being re-established")
        m4 == V(m3, \E i \in DOMAIN m.gen : m.gen[i].stall >= 0 /\ now >= m.gen[i].stall + m.cfg.wto, {"C23"},
                "write not timed out")
        m5 == V(m4, \E i \in DOMAIN m.gen : LET g == m.gen[i] IN
                      /\ g.st = "open" /\ ~g.brk /\ g.stall = -1 /\ ~AnyAt(g)
                      /\ Len(g.w) > 0
                      /\ (Len(g.r) < Len(g.w) \/ g.rd < g.r[Len(g.w)].end)
                      /\ now >= MaxOf(g.lastw, g.lastrd) + m.cfg.rto, {"C23"},
                "missing response not timed out")
        m6 == V(m5, m.clod /\ m.closers = 0 /\ ev.alive > 0, {"C11"}, "background goroutines alive after Close")
        m7 == V(m6, m.clod /\ ev.open > 0, {"C11"}, "open connection after Close")
        okGens == {i \in DOMAIN m.gen : m.gen[i].st = "open" /\ ~m.gen[i].brk}
        allOpen == \A i \in DOMAIN m.gen : m.gen[i].st \in {"none", "open"}
        m7b == V(m7, m.dlog > 0, {"C10"}, "a failed dial was not reported")
        m8 == V(m7b, m.clo = 0 /\ allOpen /\ ~stall /\ Cardinality(okGens) # m.cfg.slots, {"C10"},
                "a broken connection was not replaced")
        \* connections that must have been dropped: a fatal response was consumed by its caller
        m9 == V(m8, \E i \in DOMAIN m.gen : LET g == m.gen[i] IN
                      /\ g.st = "open" /\ ~g.closed /\ ~stall
                      /\ \E k \in 1..MinOf(Len(g.w), Len(g.r)) :
                           /\ g.w[k] # 0 /\ g.rd >= g.r[k].end /\ ~AnyAt(g)
                           /\ m.cmd[g.w[k]].rets > 0 /\ Fatal(m.cmd[g.w[k]].t, g.r[k]), {"C14"},
                "connection kept after a fatal response")
    IN \* a publication under way has reached the queue by now
       [m9 EXCEPT !.unh = FALSE, !.now = now,
                  !.gen = TLCEval([i \in DOMAIN m.gen |-> IF m.gen[i].brk THEN m.gen[i] ELSE [m.gen[i] EXCEPT !.qrd = m.gen[i].rd]]),
                  !.ses = TLCEval([s \in DOMAIN m.ses |->
                     IF m.ses[s].pub = 1 THEN [m.ses[s] EXCEPT !.pub = 2, !.retN = m.n] ELSE m.ses[s]])]

\* Health checking: in every period every usable connection carries at least
\* one command, and a dead connection is noticed within two periods.
Tick(m, ev) ==
    LET S == DOMAIN m.sc
        usable(i) == m.sc[i] >= 0 /\ GenHealthy(m.gen[m.sc[i]]) /\ m.gen[m.sc[i]].at <= m.tick
        idle == {i \in S : usable(i) /\ m.act[i] + m.pings[i] = 0}
        pinged == \E i \in S : m.pings[i] > 0
        unnoticed == {i \in DOMAIN m.gen : /\ m.gen[i].dead >= 0 /\ ~m.gen[i].closed
                                           /\ ev.at >= m.gen[i].dead + 2 * m.cfg.health + m.cfg.slots * m.cfg.rto}
        m1 == V(m, ev.need /\ ~m.amb /\ idle # {}, {"C18"}, "a connection was left unchecked for a whole period")
        m2 == V(m1, ev.quiet /\ pinged, {"C18"}, "health check although every connection had been used")
        m3 == V(m2, ~m.amb /\ \E i \in S : m.pings[i] > 1, {"C18"}, "more health checks than periods")
        m4 == V(m3, unnoticed # {}, {"C18", "C10"}, "a dead connection was not noticed by the health check")
    IN [m4 EXCEPT !.act = TLCEval([i \in DOMAIN m.act |-> 0]), !.pings = TLCEval([i \in DOMAIN m.pings |-> 0]),
                  !.tick = ev.at]

AtEnd(m, ev) ==
    LET m1 == V(m, \E p \in DOMAIN m.op : m.op[p].on, {"C07"}, "a call never returned")
        m2 == V(m1, m.closers > 0, {"C11", "C07"}, "Close never returned")
        n == m.cfg.slots
        \* round robin over the connections
        k == Len(m.asg)
        bad == /\ m.seqadd /\ n > 1 /\ ~ReservedPings(m)
               /\ \E i, j \in 1..k : /\ i < j /\ j - i < n
                                     /\ m.asg[i].g >= 0 /\ m.asg[j].g >= 0
                                     /\ m.asg[i].g < n /\ m.asg[j].g < n
                                     /\ m.asg[i].g = m.asg[j].g
        m3 == V(m2, bad, {"C19"}, "pipelines not spread over the connections")
        slotOf(i) == IF m.asg[i].g < 0 THEN -1 ELSE m.gen[m.asg[i].g].slot
        count(x) == Cardinality({i \in 1..k : slotOf(i) = x})
        uneven == /\ n > 1 /\ ~ReservedPings(m)
                  /\ \A i \in 1..k : slotOf(i) >= 0
                  /\ \E x, y \in 0..(n - 1) : count(x) > count(y) + 1
        m4 == V(m3, uneven, {"C19"}, "pipelines not spread evenly over the connections")
    IN m4

Step(m, ev) ==
    IF ~m.on THEN (IF ev.e = "cfg" THEN Start(ev) ELSE m)
    ELSE
    LET m0 == TLCEval([m EXCEPT !.n = @ + 1, !.cslow = @ \/ (m.clo > 0 /\ ev.e \in {"dial", "w", "wblk"})]) IN
    CASE ev.e = "add"      -> Add(m0, ev)
      [] ev.e = "added"    -> OpEnd(m0, m0.cmd[ev.c].p)
      [] ev.e = "exe"      -> Exe(m0, ev)
      [] ev.e = "exed"     -> Exed(m0, ev)
      [] ev.e = "fin"      -> Fin(m0, ev)
      [] ev.e = "find"     -> OpEnd(m0, ev.p)
      [] ev.e = "call"     -> Call(m0, ev)
      [] ev.e = "ret"      -> Ret(m0, ev)
      [] ev.e = "chk"      -> Chk(m0, ev)
      [] ev.e = "dead"     -> [m0 EXCEPT !.gen[ev.g].dead = ev.at]
      [] ev.e = "scr"      -> [m0 EXCEPT !.cmd[ev.c].rdata = ev.d]
      [] ev.e = "w"        -> W(m0, ev)
      [] ev.e = "badreq"   -> V(m0, TRUE, {"C04", "C06"}, "corrupt request stream")
      [] ev.e = "rs"       -> Rs(m0, ev)
      [] ev.e = "rd"       -> V(Rd(m0, ev), m0.clod, {"C11"}, "read after Close returned")
      [] ev.e = "rdx"      -> V(Rdx(m0, ev), m0.clod, {"C11"}, "read after Close returned")
      [] ev.e = "rderr"    -> RdErr(m0, ev)
      [] ev.e = "wrerr"    -> WrErr(m0, ev)
      [] ev.e = "wblk"     -> [m0 EXCEPT !.gen[ev.g].stall = ev.at]
      [] ev.e = "close"    -> CloseGen(m0, ev)
      [] ev.e = "dial"     -> Dial(m0, ev)
      [] ev.e = "dialok"   -> DialOk(m0, ev)
      [] ev.e = "dlog"     -> DialLog(m0, ev)
      [] ev.e = "dialfail" -> DialFail(m0, ev)
      [] ev.e = "clo"      -> Clo(m0, ev)
      [] ev.e = "clod"     -> Clod(m0, ev)
      [] ev.e = "late"     -> V(m0, TRUE, {"C11"}, "a background goroutine is still running after Close returned")
      [] ev.e = "wrote"    -> V(m0, TRUE, {"C04", "C17"}, "the caller's value buffer was written to")
      [] ev.e = "q"        -> AtQ(m0, ev)
      [] ev.e = "tick"     -> Tick(m0, ev)
      [] ev.e = "panic"    -> V(m0, TRUE, {"C15", "C07"}, "panic")
      [] ev.e = "spin"     -> V(m0, TRUE, {"C15", "C07"}, "a goroutine loops for ever")
      [] ev.e = "end"      -> AtEnd(m0, ev)
      [] OTHER -> m0
=============================================================================
