------------------------------- MODULE Design -------------------------------
(***************************************************************************)
(* A model of the client's implementation for one connection slot: the     *)
(* goroutines (callers, sender, receiver, reconnector, closer), the        *)
(* buffers between them and the locks and condition variables they use, at *)
(* the granularity of the critical sections of memcache/*.go, together     *)
(* with a server that answers in any order of time, sends wrong answers    *)
(* and breaks connections at any byte.                                     *)
(*                                                                         *)
(* Every step emits the events an observer at the API and at the network   *)
(* sees; with Monitor = TRUE they are fed to the monitor of Contract.tla,  *)
(* so that NoViolation says: every behaviour of the design satisfies the   *)
(* contract.  Bug selects a wrong variant of the design (most of them are  *)
(* defects this repository had); the models of those variants must fail.   *)
(***************************************************************************)
EXTENDS Contract

CONSTANTS
    Prog,       \* per caller the sequence of session lengths
    Batch,      \* maximal number of commands of a batch
    Lim,        \* write limit
    RCap,       \* capacity of the receive buffer (batches)
    SelLim,     \* maximal number of batches of one write
    MaxFaults,  \* budget of faults: broken connections, refused dials, wrong answers
    FaultKinds, \* subset of {"kill", "dial", "bad", "badf", "se", "extra"}
    WithClose,
    Monitor,
    Bug

VARIABLES
    call,   \* caller -> [pc, s, e]
    bat,    \* batch -> [done, err, res, conn]
    sb,     \* sendBuffer
    inp, lng, wrc, rdc,          \* inputSelector and its write limiter
    snd,    \* sender goroutine
    rb,     \* recvBuffer
    rcv, rbuf, rconn,            \* receiver goroutine and its response reader
    gen,    \* connections, in the order they were dialled
    cur, sclosed, mut,           \* protected by connMut (mut: held across steps by the sender)
    rec,    \* reconnecting goroutine
    cl,     \* Close
    faults, now, lastq, m

vars == <<call, bat, sb, inp, lng, wrc, rdc, snd, rb, rcv, rbuf, rconn, gen, cur, sclosed, mut, rec, cl, faults, now, lastq, m>>

Callers == DOMAIN Prog
Retry == 5

\* commands are numbered in program order, caller after caller
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Base(p, s) == SumSeq([i \in 1..(p - 1) |-> SumSeq(Prog[i])]) + SumSeq(SubSeq(Prog[p], 1, s - 1))
CmdId(p, s, i) == Base(p, s) + i
NC == SumSeq([i \in Callers |-> SumSeq(Prog[i])])
NBat(p, s) == (Prog[p][s] + Batch - 1) \div Batch
AllBatches == UNION {UNION {{<<p, s, b>> : b \in 1..NBat(p, s)} : s \in 1..Len(Prog[p])} : p \in Callers}
Size(x) == MinOf(Batch, Prog[x[1]][x[2]] - (x[3] - 1) * Batch)
CmdsOf(x) == [i \in 1..Size(x) |-> CmdId(x[1], x[2], (x[3] - 1) * Batch + i)]
HasSibling(x) == x[3] < NBat(x[1], x[2])
Sibling(x) == <<x[1], x[2], x[3] + 1>>
FlatCmds(xs) == FoldLeft(LAMBDA a, x : a \o CmdsOf(x), <<>>, xs)

(***************************************************************************)
(* Events                                                                  *)
(***************************************************************************)
Cfg == [e |-> "cfg", slots |-> 1, lim |-> Lim, batch |-> Batch, retry |-> Retry, rto |-> 1000, wto |-> 1000,
        health |-> 100000000, addr |-> "a", ctmo |-> 1, nc |-> NC, np |-> Len(Prog), ng |-> MaxFaults + 1]
Feed(evs) == m' = IF Monitor THEN FoldLeft(LAMBDA a, ev : TLCEval(Step(a, ev)), m, evs) ELSE m
Quiet == Feed(<<>>)
EvW(g, cs) == [e |-> "w", g |-> g, cs |-> [i \in 1..Len(cs) |-> [c |-> cs[i], v |-> ""]], at |-> now]
EvRdErr(g) == [e |-> "rderr", g |-> g, why |-> "inj", at |-> now, t0 |-> now]
EvWrErr(g) == [e |-> "wrerr", g |-> g, why |-> "inj", at |-> now, t0 |-> now]
EvClose(g) == [e |-> "close", g |-> g, at |-> now]
NoR == [k |-> "", d |-> "", cas |-> 0, fl |-> 0, e |-> "", m |-> ""]

Tok(g, c) == ToString(<<g, c>>)
\* what the caller of command c sees
ResultOf(r) == CASE r.k = "VA" -> [NoR EXCEPT !.k = "VA", !.d = r.d]
                 [] r.k = "SE" -> [NoR EXCEPT !.e = "se", !.m = r.d]
                 [] OTHER -> [NoR EXCEPT !.e = "bp"]
ErrRes(err) == [NoR EXCEPT !.e = IF err = "closed" THEN "closed" ELSE "io"]

(***************************************************************************)
(* Initial states                                                          *)
(***************************************************************************)
NewGen(st) == [st |-> st, err |-> "none", kill |-> (st = "failed"), wr |-> <<>>, ans |-> <<>>, del |-> 0, closed |-> (st = "failed")]

EvDial(g) == [e |-> "dial", g |-> g, net |-> "tcp", addr |-> "a", tmo |-> 1, at |-> now]
DialEvents(g, ok) ==
    IF ok THEN <<EvDial(g), [e |-> "dialok", g |-> g, at |-> now]>>
    ELSE <<EvDial(g), [e |-> "dialfail", g |-> g, at |-> now], [e |-> "dlog", ok |-> TRUE]>>

Init ==
    /\ call = [p \in Callers |-> [pc |-> "idle", s |-> 1, h |-> FALSE]]
    /\ bat = [x \in AllBatches |-> [done |-> FALSE, err |-> "", res |-> <<>>, conn |-> -1]]
    /\ sb = [q |-> <<>>, closed |-> FALSE, wait |-> FALSE, sig |-> FALSE]
    /\ inp = <<>> /\ lng = <<>> /\ wrc = 0 /\ rdc = 0
    /\ snd = [pc |-> "pop", tmp |-> <<>>, rest |-> <<>>, conn |-> -1, jw |-> FALSE, closed |-> FALSE, l |-> 1]
    /\ rb = [q |-> <<>>, closed |-> FALSE]
    /\ rcv = [pc |-> "read", list |-> <<>>, cnt |-> 0, inc |-> FALSE]
    /\ rbuf = <<>> /\ rconn = -1
    /\ now = 0
    /\ \E ok \in {TRUE} \cup (IF "dial" \in FaultKinds /\ MaxFaults > 0 THEN {FALSE} ELSE {}) :
          /\ gen = <<NewGen(IF ok THEN "open" ELSE "failed")>>
          /\ faults = IF ok THEN MaxFaults ELSE MaxFaults - 1
          /\ m = IF Monitor THEN FoldLeft(LAMBDA a, ev : TLCEval(Step(a, ev)), Init0,
                     <<Cfg>> \o (IF ok THEN <<[e |-> "dial", g |-> 0, net |-> "tcp", addr |-> "a", tmo |-> 1, at |-> 0],
                                             [e |-> "dialok", g |-> 0, at |-> 0]>>
                                 ELSE <<[e |-> "dial", g |-> 0, net |-> "tcp", addr |-> "a", tmo |-> 1, at |-> 0],
                                        [e |-> "dialfail", g |-> 0, at |-> 0], [e |-> "dlog", ok |-> TRUE]>>))
                 ELSE Init0
    /\ cur = 0 /\ sclosed = FALSE /\ mut = "free"
    /\ rec = [pc |-> "check", wake |-> 0, sig |-> FALSE]
    /\ cl = "no"
    /\ lastq = FALSE

G(g) == gen[g + 1]   \* connections are numbered from 0

\* setLastErrorAndCloseUnsafe: the new state of the connection, whether it was closed here
SetErr(g, err) == IF G(g).err # "none" THEN gen ELSE [gen EXCEPT ![g + 1].err = err, ![g + 1].closed = TRUE]
ErrOf(g, err) == IF G(g).err # "none" THEN G(g).err ELSE err
SetErrEvents(g) == IF G(g).err # "none" \/ G(g).closed THEN <<>> ELSE <<EvClose(g)>>
SignalRec == IF rec.pc = "ncwait" THEN [rec EXCEPT !.sig = TRUE] ELSE rec

(***************************************************************************)
(* Callers                                                                 *)
(***************************************************************************)
\* the commands of a session are added and the first result is asked for
CallBegin(p) ==
    /\ call[p].pc = "idle" /\ call[p].s <= Len(Prog[p])
    /\ call' = [call EXCEPT ![p].pc = "pub"]
    /\ LET s == call[p].s
           adds == FoldLeft(LAMBDA a, i : a \o <<[e |-> "add", c |-> CmdId(p, s, i), p |-> p, t |-> "mg", v |-> "", bad |-> FALSE],
                                                [e |-> "added", c |-> CmdId(p, s, i)]>>,
                            <<>>, [i \in 1..Prog[p][s] |-> i])
       IN Feed(adds \o <<[e |-> "call", c |-> CmdId(p, s, 1)]>>)
    /\ lastq' = FALSE
    /\ UNCHANGED <<bat, sb, inp, lng, wrc, rdc, snd, rb, rcv, rbuf, rconn, gen, cur, sclosed, mut, rec, cl, faults, now>>

\* sendBuffer.push, or the failure of all batches when it is closed
Publish1(p) ==
    /\ call[p].pc = "pub"
    /\ call' = [call EXCEPT ![p].pc = "wait"]
    /\ LET x == <<p, call[p].s, 1>> IN
       IF sb.closed
       THEN /\ bat' = [y \in DOMAIN bat |->
                          IF y[1] = p /\ y[2] = call[p].s /\ (Bug # "firstbatchonly" \/ y[3] = 1)
                          THEN [bat[y] EXCEPT !.done = TRUE, !.err = "closed"] ELSE bat[y]]
            /\ UNCHANGED sb
       ELSE /\ sb' = [sb EXCEPT !.q = Append(@, x),
                                !.sig = @ \/ (sb.wait /\ (IF Bug = "signalempty" THEN sb.q # <<>> ELSE sb.q = <<>>))]
            /\ UNCHANGED bat
    /\ lastq' = FALSE /\ Quiet
    /\ UNCHANGED <<inp, lng, wrc, rdc, snd, rb, rcv, rbuf, rconn, gen, cur, sclosed, mut, rec, cl, faults, now>>

SesBatches(p) == {<<p, call[p].s, b>> : b \in 1..NBat(p, call[p].s)}

\* results of batch x: an answer that spoils the connection fails the rest of
\* the batch and closes the connection
RECURSIVE ParseFrom(_, _, _)
ParseFrom(x, i, acc) ==
    IF i > Size(x) THEN acc
    ELSE IF bat[x].err # "" THEN ParseFrom(x, i + 1, [acc EXCEPT !.rs = Append(@, ErrRes(bat[x].err))])
    ELSE LET r == bat[x].res[i] IN
         IF r.k \in {"VA", "SE"} THEN ParseFrom(x, i + 1, [acc EXCEPT !.rs = Append(@, ResultOf(r))])
         ELSE [rs |-> acc.rs \o [j \in 1..(Size(x) - i + 1) |-> ErrRes(ErrOf(bat[x].conn, "bad"))], bad |-> TRUE]
Parse(x) == ParseFrom(x, 1, [rs |-> <<>>, bad |-> FALSE])

\* all batches are completed: parse the answers and return the results
CallEnd(p) ==
    /\ call[p].pc = "wait"
    /\ \A x \in SesBatches(p) : bat[x].done
    /\ mut = "free"
    /\ LET s == call[p].s
           xs == [b \in 1..NBat(p, s) |-> <<p, s, b>>]
           ps == [b \in 1..NBat(p, s) |-> Parse(xs[b])]
           badOf == {b \in DOMAIN ps : ps[b].bad}
           rs == FoldLeft(LAMBDA a, b : a \o b.rs, <<>>, ps)
           badg == IF badOf = {} THEN -1 ELSE bat[xs[CHOOSE b \in badOf : \A c \in badOf : b <= c]].conn
           evs == (IF badg >= 0 /\ Bug # "keepbad" THEN SetErrEvents(badg) ELSE <<>>)
                  \o <<[e |-> "ret", c |-> CmdId(p, s, 1), r |-> rs[1]]>>
                  \o FoldLeft(LAMBDA a, i : a \o <<[e |-> "call", c |-> CmdId(p, s, i)], [e |-> "ret", c |-> CmdId(p, s, i), r |-> rs[i]]>>,
                              <<>>, [i \in 1..(Prog[p][s] - 1) |-> i + 1])
       IN /\ Feed(evs)
          /\ gen' = IF badg >= 0 /\ Bug # "keepbad" THEN SetErr(badg, "bad") ELSE gen
          /\ rec' = IF badg >= 0 /\ G(badg).err = "none" THEN SignalRec ELSE rec
    /\ call' = [call EXCEPT ![p].pc = "idle", ![p].s = @ + 1]
    /\ lastq' = FALSE
    /\ UNCHANGED <<bat, sb, inp, lng, wrc, rdc, snd, rb, rcv, rbuf, rconn, cur, sclosed, mut, cl, faults, now>>

(***************************************************************************)
(* Sender                                                                  *)
(***************************************************************************)
SelEmpty == inp = <<>> /\ lng = <<>>

SndPop ==
    /\ \/ snd.pc = "pop"
       \/ snd.pc = "popwait" /\ sb.sig
    /\ IF SelEmpty /\ snd.tmp = <<>> /\ ~sb.closed /\ sb.q = <<>>
       THEN /\ snd' = [snd EXCEPT !.pc = "popwait"]
            /\ sb' = [sb EXCEPT !.wait = TRUE, !.sig = FALSE]
            /\ UNCHANGED inp
       ELSE /\ snd' = [snd EXCEPT !.pc = "pick", !.closed = sb.closed, !.jw = FALSE, !.l = 1]
            /\ sb' = [sb EXCEPT !.q = <<>>, !.wait = FALSE, !.sig = FALSE]
            /\ inp' = inp \o sb.q
    /\ lastq' = FALSE /\ Quiet
    /\ UNCHANGED <<call, bat, lng, wrc, rdc, rb, rcv, rbuf, rconn, gen, cur, sclosed, mut, rec, cl, faults, now>>

\* getNextCommand on the list whose turn it is
Return(closed) == [snd EXCEPT !.pc = "bind", !.closed = closed]
Take(lst, jw) ==
    LET x == Head(lst)
        first == snd.l = 1
        inp1 == IF first THEN Tail(inp) ELSE inp
        lng1 == IF first THEN lng ELSE Tail(lng)
    IN /\ wrc' = wrc + Size(x)
       /\ inp' = inp1
       /\ lng' = IF HasSibling(x) THEN Append(lng1, Sibling(x)) ELSE lng1
       /\ snd' = [snd EXCEPT !.pc = "pick", !.tmp = Append(@, x), !.jw = @ \/ jw,
                             !.l = IF first /\ ~HasSibling(x) THEN 2 ELSE 1]

SndPick ==
    /\ snd.pc = "pick"
    /\ LET lst == IF snd.l = 1 THEN inp ELSE lng IN
       CASE snd.l = 1 /\ SelEmpty ->
              /\ snd' = IF snd.jw THEN [snd EXCEPT !.pc = "pop"] ELSE Return(snd.closed)
              /\ UNCHANGED <<inp, lng, wrc>>
         [] ~(snd.l = 1 /\ SelEmpty) /\ lst = <<>> ->
              /\ snd' = [snd EXCEPT !.l = 3 - @]
              /\ UNCHANGED <<inp, lng, wrc>>
         [] lst # <<>> /\ Len(snd.tmp) >= SelLim ->
              /\ snd' = Return(FALSE)
              /\ UNCHANGED <<inp, lng, wrc>>
         [] lst # <<>> /\ Len(snd.tmp) < SelLim ->
              LET n == Size(Head(lst)) IN
              IF n <= Lim /\ wrc + n > rdc + Lim /\ Bug # "nolimit"
              THEN /\ snd' = IF snd.tmp = <<>> THEN [snd EXCEPT !.pc = "limwait"] ELSE Return(FALSE)
                   /\ UNCHANGED <<inp, lng, wrc>>
              ELSE Take(lst, FALSE)
    /\ lastq' = FALSE /\ Quiet
    /\ UNCHANGED <<call, bat, sb, rdc, rb, rcv, rbuf, rconn, gen, cur, sclosed, mut, rec, cl, faults, now>>

SndLim ==
    /\ snd.pc = "limwait"
    /\ LET lst == IF snd.l = 1 THEN inp ELSE lng IN
       /\ wrc + Size(Head(lst)) <= rdc + Lim
       /\ Take(lst, TRUE)
    /\ lastq' = FALSE /\ Quiet
    /\ UNCHANGED <<call, bat, sb, rdc, rb, rcv, rbuf, rconn, gen, cur, sclosed, mut, rec, cl, faults, now>>

SndBind ==
    /\ snd.pc = "bind" /\ mut = "free"
    /\ snd' = [snd EXCEPT !.pc = "push", !.conn = cur, !.rest = snd.tmp]
    /\ bat' = [x \in DOMAIN bat |-> IF \E i \in DOMAIN snd.tmp : snd.tmp[i] = x THEN [bat[x] EXCEPT !.conn = cur] ELSE bat[x]]
    /\ mut' = IF Bug = "holdlock" THEN "snd" ELSE mut
    /\ lastq' = FALSE /\ Quiet
    /\ UNCHANGED <<call, sb, inp, lng, wrc, rdc, rb, rcv, rbuf, rconn, gen, cur, sclosed, rec, cl, faults, now>>

SndPush ==
    /\ snd.pc = "push"
    /\ IF snd.rest = <<>>
       THEN /\ snd' = [snd EXCEPT !.pc = "write"]
            /\ UNCHANGED rb
       ELSE /\ Len(rb.q) < RCap
            /\ LET n == MinOf(RCap - Len(rb.q), Len(snd.rest)) IN
               /\ rb' = [rb EXCEPT !.q = @ \o SubSeq(snd.rest, 1, n)]
               /\ snd' = [snd EXCEPT !.rest = SubSeq(@, n + 1, Len(@))]
    /\ lastq' = FALSE /\ Quiet
    /\ UNCHANGED <<call, bat, sb, inp, lng, wrc, rdc, rcv, rbuf, rconn, gen, cur, sclosed, mut, rec, cl, faults, now>>

\* write and flush the batches (under connMut)
SndWrite ==
    /\ snd.pc = "write" /\ mut \in {"free", "snd"}
    /\ LET g == IF Bug = "latebind" THEN cur ELSE snd.conn
           next == [snd EXCEPT !.pc = IF snd.closed THEN "fin" ELSE "pop", !.tmp = <<>>]
           all == FlatCmds(snd.tmp)
       IN
       IF snd.tmp = <<>> \/ G(g).err # "none"
       THEN gen' = gen /\ rec' = rec /\ Quiet /\ snd' = next
       ELSE \/ /\ ~G(g).kill
               /\ gen' = [gen EXCEPT ![g + 1].wr = @ \o all]
               /\ Feed(<<EvW(g, all)>>)
               /\ rec' = rec /\ snd' = next
            \/ \* the connection is broken: some batches get through
               /\ G(g).kill
               /\ \E k \in {0} \cup (IF G(g).st = "failed" THEN {} ELSE {Len(snd.tmp) - 1}) :
                     LET part == FlatCmds(SubSeq(snd.tmp, 1, k)) IN
                     /\ Feed((IF part = <<>> THEN <<>> ELSE <<EvW(g, part)>>)
                             \o (IF G(g).st = "failed" THEN <<>> ELSE <<EvWrErr(g)>>) \o SetErrEvents(g))
                     /\ gen' = [gen EXCEPT ![g + 1].wr = @ \o part, ![g + 1].err = "io", ![g + 1].closed = TRUE]
                     /\ rec' = SignalRec /\ snd' = next
            \/ \* or the failure goes unnoticed by this write
               /\ G(g).kill /\ G(g).st # "failed"
               /\ gen' = [gen EXCEPT ![g + 1].wr = @ \o all]
               /\ Feed(<<EvW(g, all)>>)
               /\ rec' = rec /\ snd' = next
    /\ mut' = "free"
    /\ lastq' = FALSE
    /\ UNCHANGED <<call, bat, sb, inp, lng, wrc, rdc, rb, rcv, rbuf, rconn, cur, sclosed, cl, faults, now>>

SndFin ==
    /\ snd.pc = "fin"
    /\ rb' = [rb EXCEPT !.closed = TRUE]
    /\ snd' = [snd EXCEPT !.pc = "end"]
    /\ lastq' = FALSE /\ Quiet
    /\ UNCHANGED <<call, bat, sb, inp, lng, wrc, rdc, rcv, rbuf, rconn, gen, cur, sclosed, mut, rec, cl, faults, now>>

(***************************************************************************)
(* Receiver                                                                *)
(***************************************************************************)
RcvRead ==
    /\ rcv.pc = "read"
    /\ \/ /\ rb.q # <<>>
          /\ rcv' = [rcv EXCEPT !.pc = "cur", !.list = rb.q]
          /\ rb' = [rb EXCEPT !.q = <<>>]
          /\ UNCHANGED <<gen, sclosed, rec>> /\ Quiet
       \/ /\ rb.q = <<>> /\ rb.closed /\ mut = "free"   \* shutdown of the connection
          /\ rcv' = [rcv EXCEPT !.pc = "end"]
          /\ sclosed' = TRUE
          /\ gen' = SetErr(cur, "closed")
          /\ Feed(SetErrEvents(cur))
          /\ rec' = SignalRec
          /\ UNCHANGED rb
    /\ lastq' = FALSE
    /\ UNCHANGED <<call, bat, sb, inp, lng, wrc, rdc, snd, rbuf, rconn, cur, mut, cl, faults, now>>

\* complete the current batch and go on
Done(x, err, res) ==
    /\ bat' = [bat EXCEPT ![x].done = TRUE, ![x].err = err, ![x].res = res]
    /\ rcv' = [pc |-> IF Len(rcv.list) = 1 THEN "read" ELSE "cur", list |-> Tail(rcv.list), cnt |-> 0, inc |-> FALSE]
Inc(x) == rdc' = IF rcv.inc THEN rdc ELSE rdc + Size(x)

RcvCur ==
    /\ rcv.pc = "cur"
    /\ LET x == Head(rcv.list)
           g == bat[x].conn
           err == G(g).err
           change == rconn # g /\ Bug # "leftover"
       IN /\ rconn' = g
          /\ IF err # "none"
             THEN /\ Done(x, err, <<>>)
                  /\ rdc' = IF Bug = "nocount" THEN rdc ELSE rdc + Size(x)
                  /\ rbuf' = <<>>
             ELSE /\ rcv' = [rcv EXCEPT !.pc = "resp", !.cnt = 0, !.inc = FALSE]
                  /\ rbuf' = IF change THEN <<>> ELSE rbuf
                  /\ UNCHANGED <<bat, rdc>>
    /\ lastq' = FALSE /\ Quiet
    /\ UNCHANGED <<call, sb, inp, lng, wrc, snd, rb, gen, cur, sclosed, mut, rec, cl, faults, now>>

\* the reader holds halves of answers; an answer is decoded when both halves are there
RcvResp ==
    /\ rcv.pc = "resp"
    /\ LET x == Head(rcv.list)
           g == bat[x].conn
       IN IF Len(rbuf) < 2
          THEN /\ rcv' = [rcv EXCEPT !.pc = "rd"]
               /\ UNCHANGED <<bat, rdc, rbuf, gen, rec>> /\ Quiet
          ELSE LET a == rbuf[1]
                   b == rbuf[2]
                   ok == a.h = 1 /\ b.h = 2 /\ a.r = b.r /\ a.r.k # "BADF"
                   res == Append(bat[x].res, a.r)
               IN IF ~ok
                  THEN /\ mut = "free"
                       /\ Done(x, ErrOf(g, "bad"), <<>>)
                       /\ Inc(x)
                       /\ gen' = SetErr(g, "bad")
                       /\ Feed(SetErrEvents(g))
                       /\ rec' = IF G(g).err = "none" THEN SignalRec ELSE rec
                       /\ rbuf' = <<>>
                  ELSE /\ IF rcv.cnt + 1 = Size(x)
                          THEN Done(x, "", res)
                          ELSE /\ bat' = [bat EXCEPT ![x].res = res]
                               /\ rcv' = [rcv EXCEPT !.cnt = @ + 1, !.inc = TRUE]
                       /\ Inc(x)
                       /\ rbuf' = SubSeq(rbuf, 3, Len(rbuf))
                       /\ Quiet /\ UNCHANGED <<gen, rec>>
    /\ lastq' = FALSE
    /\ UNCHANGED <<call, sb, inp, lng, wrc, snd, rb, rconn, cur, sclosed, mut, cl, faults, now>>

Sent(g) == 2 * Len(G(g).ans)
Half(g, i) == [r |-> G(g).ans[(i + 1) \div 2], h |-> IF i % 2 = 1 THEN 1 ELSE 2]

\* readData: the error of the connection, some bytes, or the failure of the read
RcvRd ==
    /\ rcv.pc = "rd"
    /\ LET x == Head(rcv.list)
           g == bat[x].conn
       IN \/ /\ G(g).err # "none"
             /\ Done(x, G(g).err, <<>>) /\ Inc(x)
             /\ rbuf' = <<>> /\ Quiet /\ UNCHANGED <<gen, rec>>
          \/ /\ G(g).err = "none" /\ ~G(g).closed /\ G(g).del < Sent(g)
             /\ \E n \in {1, Sent(g) - G(g).del} :
                   /\ gen' = [gen EXCEPT ![g + 1].del = @ + n]
                   /\ rbuf' = rbuf \o [i \in 1..n |-> Half(g, G(g).del + i)]
                   /\ Feed(<<[e |-> "rd", g |-> g, n |-> G(g).del + n, at |-> now]>>)
             /\ Inc(x)
             /\ rcv' = [rcv EXCEPT !.pc = "resp", !.inc = TRUE]
             /\ UNCHANGED <<bat, rec>>
          \/ /\ (G(g).kill \/ (G(g).closed /\ G(g).err = "none")) /\ mut = "free" /\ G(g).err = "none"
             /\ Done(x, ErrOf(g, "io"), <<>>) /\ Inc(x)
             /\ gen' = SetErr(g, "io")
             /\ Feed((IF G(g).st = "failed" THEN <<>> ELSE <<EvRdErr(g)>>) \o SetErrEvents(g))
             /\ rec' = SignalRec
             /\ rbuf' = <<>>
    /\ lastq' = FALSE
    /\ UNCHANGED <<call, sb, inp, lng, wrc, snd, rb, rconn, cur, sclosed, mut, cl, faults, now>>

(***************************************************************************)
(* Reconnecting goroutine                                                  *)
(***************************************************************************)
RecCheck ==
    /\ rec.pc = "check" \/ (rec.pc = "ncwait" /\ rec.sig)
    /\ mut = "free"
    /\ rec' = CASE sclosed /\ Bug # "staleclosed" -> [rec EXCEPT !.pc = "end", !.sig = FALSE]
                [] ~(sclosed /\ Bug # "staleclosed") /\ G(cur).err # "none" ->
                     [rec EXCEPT !.pc = IF Bug = "staleclosed" /\ sclosed /\ rec.pc = "check" THEN "end" ELSE "dial", !.sig = FALSE]
                [] OTHER -> [rec EXCEPT !.pc = "ncwait", !.sig = FALSE]
    /\ lastq' = FALSE /\ Quiet
    /\ UNCHANGED <<call, bat, sb, inp, lng, wrc, rdc, snd, rb, rcv, rbuf, rconn, gen, cur, sclosed, mut, cl, faults, now>>

RecDial ==
    /\ rec.pc = "dial"
    /\ \E ok \in {TRUE} \cup (IF faults > 0 /\ "dial" \in FaultKinds THEN {FALSE} ELSE {}) :
          /\ gen' = Append(gen, NewGen(IF ok THEN "open" ELSE "failed"))
          /\ faults' = IF ok THEN faults ELSE faults - 1
          /\ rec' = IF ok THEN [rec EXCEPT !.pc = "reset"] ELSE [rec EXCEPT !.pc = "sleep", !.wake = now + Retry]
          /\ Feed(DialEvents(Len(gen), ok))
    /\ lastq' = FALSE
    /\ UNCHANGED <<call, bat, sb, inp, lng, wrc, rdc, snd, rb, rcv, rbuf, rconn, cur, sclosed, mut, cl, now>>

RecReset ==
    /\ rec.pc = "reset" /\ mut = "free"
    /\ LET g == Len(gen) - 1 IN
       IF sclosed
       THEN /\ gen' = [gen EXCEPT ![g + 1].closed = TRUE]
            /\ Feed(<<EvClose(g)>>)
            /\ UNCHANGED cur
       ELSE /\ cur' = g /\ Quiet /\ UNCHANGED gen
    /\ rec' = [rec EXCEPT !.pc = "check"]
    /\ lastq' = FALSE
    /\ UNCHANGED <<call, bat, sb, inp, lng, wrc, rdc, snd, rb, rcv, rbuf, rconn, sclosed, mut, cl, faults, now>>

RecWakeByClose ==
    /\ rec.pc = "sleep" /\ cl \notin {"no"}
    /\ rec' = [rec EXCEPT !.pc = "check"]
    /\ lastq' = FALSE /\ Quiet
    /\ UNCHANGED <<call, bat, sb, inp, lng, wrc, rdc, snd, rb, rcv, rbuf, rconn, gen, cur, sclosed, mut, cl, faults, now>>

(***************************************************************************)
(* Close                                                                   *)
(***************************************************************************)
Close1 ==
    /\ WithClose /\ cl = "no"
    /\ cl' = "chan"
    /\ Feed(<<[e |-> "clo", at |-> now]>>)
    /\ lastq' = FALSE
    /\ UNCHANGED <<call, bat, sb, inp, lng, wrc, rdc, snd, rb, rcv, rbuf, rconn, gen, cur, sclosed, mut, rec, faults, now>>

Close2 ==
    /\ cl = "chan"
    /\ cl' = "wait"
    /\ sb' = [sb EXCEPT !.closed = TRUE, !.sig = @ \/ sb.wait]
    /\ lastq' = FALSE /\ Quiet
    /\ UNCHANGED <<call, bat, inp, lng, wrc, rdc, snd, rb, rcv, rbuf, rconn, gen, cur, sclosed, mut, rec, faults, now>>

OpenConns == Cardinality({i \in DOMAIN gen : ~gen[i].closed})
AliveG == (IF snd.pc = "end" THEN 0 ELSE 1) + (IF rcv.pc = "end" THEN 0 ELSE 1) + (IF rec.pc = "end" THEN 0 ELSE 1)

Close3 ==
    /\ cl = "wait"
    /\ rcv.pc = "end" /\ (rec.pc = "end" \/ Bug = "norecwait") /\ snd.pc = "end"
    /\ cl' = "done"
    /\ Feed(<<[e |-> "clod", alive |-> AliveG, open |-> OpenConns, at |-> now]>>)
    /\ lastq' = FALSE
    /\ UNCHANGED <<call, bat, sb, inp, lng, wrc, rdc, snd, rb, rcv, rbuf, rconn, gen, cur, sclosed, mut, rec, faults, now>>

(***************************************************************************)
(* Environment                                                             *)
(***************************************************************************)
Fault(k) == k \in FaultKinds /\ faults > 0

Answer(g) ==
    /\ g < Len(gen) /\ G(g).st = "open" /\ ~G(g).kill /\ ~G(g).closed
    /\ \/ /\ Len(G(g).ans) < Len(G(g).wr)
          /\ \E k \in {"VA"} \cup {f \in {"SE", "BAD", "BADF"} : Fault(CASE f = "SE" -> "se" [] f = "BAD" -> "bad" [] f = "BADF" -> "badf")} :
                LET c == G(g).wr[Len(G(g).ans) + 1]
                    d == IF k = "VA" THEN Tok(g, c) ELSE k
                    r == [k |-> k, d |-> d]
                IN /\ gen' = [gen EXCEPT ![g + 1].ans = Append(@, r)]
                   /\ faults' = IF k = "VA" THEN faults ELSE faults - 1
                   /\ Feed(<<[e |-> "rs", g |-> g, k |-> k, d |-> d, cas |-> 0, fl |-> 0, end |-> 2 * (Len(G(g).ans) + 1)]>>)
       \/ /\ Len(G(g).ans) >= Len(G(g).wr) /\ Fault("extra")
          /\ LET d == Tok(g, 100 + Len(G(g).ans)) IN
             /\ gen' = [gen EXCEPT ![g + 1].ans = Append(@, [k |-> "VA", d |-> d])]
             /\ Feed(<<[e |-> "rs", g |-> g, k |-> "VA", d |-> d, cas |-> 0, fl |-> 0, end |-> 2 * (Len(G(g).ans) + 1)]>>)
          /\ faults' = faults - 1
    /\ lastq' = FALSE
    /\ UNCHANGED <<call, bat, sb, inp, lng, wrc, rdc, snd, rb, rcv, rbuf, rconn, cur, sclosed, mut, rec, cl, now>>

Kill(g) ==
    /\ g < Len(gen) /\ G(g).st = "open" /\ ~G(g).kill /\ ~G(g).closed /\ Fault("kill")
    /\ gen' = [gen EXCEPT ![g + 1].kill = TRUE]
    /\ faults' = faults - 1
    /\ lastq' = FALSE /\ Quiet
    /\ UNCHANGED <<call, bat, sb, inp, lng, wrc, rdc, snd, rb, rcv, rbuf, rconn, cur, sclosed, mut, rec, cl, now>>

CallerStep(p) == Publish1(p) \/ CallEnd(p)
Sender == SndPop \/ SndPick \/ SndLim \/ SndBind \/ SndPush \/ SndWrite \/ SndFin
Receiver == RcvRead \/ RcvCur \/ RcvResp \/ RcvRd
Reconnector == RecCheck \/ RecDial \/ RecReset \/ RecWakeByClose
Closer == Close2 \/ Close3
Internal == (\E p \in Callers : CallerStep(p)) \/ Sender \/ Receiver \/ Reconnector \/ Closer

\* time passes only when nothing else can happen inside the client
RetryElapsed ==
    /\ rec.pc = "sleep" /\ ~ENABLED Internal
    /\ now' = MaxOf(now, rec.wake)
    /\ rec' = [rec EXCEPT !.pc = "check"]
    /\ lastq' = FALSE /\ Quiet
    /\ UNCHANGED <<call, bat, sb, inp, lng, wrc, rdc, snd, rb, rcv, rbuf, rconn, gen, cur, sclosed, mut, cl, faults>>

\* an observer looks at a quiescent client
Quiescent ==
    /\ Monitor /\ ~lastq /\ ~ENABLED Internal
    /\ Feed(<<[e |-> "q", at |-> now, alive |-> AliveG, open |-> OpenConns]>>)
    /\ lastq' = TRUE
    /\ UNCHANGED <<call, bat, sb, inp, lng, wrc, rdc, snd, rb, rcv, rbuf, rconn, gen, cur, sclosed, mut, rec, cl, faults, now>>

Env == (\E p \in Callers : CallBegin(p)) \/ Close1 \/ (\E g \in 0..MaxFaults : Answer(g) \/ Kill(g)) \/ RetryElapsed

AllDone == (\A p \in Callers : call[p].pc = "idle" /\ call[p].s > Len(Prog[p])) /\ cl \in {"no", "done"}
Finished == AllDone /\ ~ENABLED Internal /\ UNCHANGED vars

Next == Internal \/ Env \/ Quiescent \/ Finished

Fairness ==
    /\ \A p \in Callers : WF_vars(CallerStep(p)) /\ WF_vars(CallBegin(p))
    /\ WF_vars(Sender) /\ WF_vars(Receiver) /\ WF_vars(Reconnector) /\ WF_vars(Closer)
    /\ WF_vars(RetryElapsed)
    /\ \A g \in 0..MaxFaults : WF_vars(Answer(g))

Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ Fairness

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
NoViolation == Monitor => m.viol = {}

\* C07: every call returns (deadlock freedom is checked as well)
EveryCallReturns == \A p \in Callers : (call[p].pc # "idle") ~> (call[p].pc = "idle")
\* C11
CloseReturns == (cl = "chan") ~> (cl = "done")
\* C10: a broken connection is replaced, unless the client is being closed
Reconnects == (G(cur).err # "none" /\ cl = "no") ~> (G(cur).err = "none" \/ cl # "no")

\* C01: a successful result is the answer to the same command on the connection it was written to
OwnAnswers ==
    "extra" \notin FaultKinds =>
    \A x \in DOMAIN bat : \A i \in DOMAIN bat[x].res :
        bat[x].res[i].k = "VA" => bat[x].res[i].d = Tok(bat[x].conn, CmdsOf(x)[i])
\* C06, C09: nothing is written twice, and in program order
WrittenOnce ==
    \A a, b \in DOMAIN gen : \A i \in DOMAIN gen[a].wr, j \in DOMAIN gen[b].wr :
        gen[a].wr[i] = gen[b].wr[j] => (a = b /\ i = j)
\* C10
OneOpen == OpenConns <= 1 \/ (rec.pc = "reset" /\ OpenConns <= 1)
\* C12: commands picked but not yet answered stay within the limit
WithinLimit == (\A x \in DOMAIN bat : Size(x) <= Lim) => wrc <= rdc + Lim
\* the receiver never counts more than was picked
CountsSane == rdc <= wrc
\* C11: after Close nothing is left
AfterClose == cl = "done" => OpenConns = 0 /\ snd.pc = "end" /\ rcv.pc = "end" /\ (rec.pc = "end" \/ Bug = "norecwait")
Bounded == Len(gen) <= MaxFaults + 2
=============================================================================
