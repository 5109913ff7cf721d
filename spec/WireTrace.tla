----------------------------- MODULE WireTrace -----------------------------
(***************************************************************************)
(* Byte-level behaviours recorded from the real code, checked against      *)
(* Wire.  A behaviour consists of two runs of the same commands and        *)
(* answers: in the first the answers arrive in one piece, in the second    *)
(* they are cut into several reads.                                        *)
(***************************************************************************)
EXTENDS Wire, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, m
vars == <<tid, l, m>>

V(st, cond, ids, why) ==
    IF cond THEN TLCEval([st EXCEPT !.viol = @ \cup {<<i, why>> : i \in ids}]) ELSE st

None == [x |-> "none"]

Start(ev) == [viol |-> {}, run |-> 0, nc |-> ev.nc,
              cmd |-> <<>>,          \* commands in the order of the calls
              q |-> <<>>,            \* those with an allowed key: the expected requests
              pos |-> <<>>,          \* position of each command in q (0: not there)
              w |-> <<>>, wp |-> 1, wn |-> 0,   \* bytes written, parsed up to, requests seen
              r |-> <<>>, rp |-> 1, res |-> <<>>,
              dead |-> FALSE,        \* a response that ends the connection was received
              lost |-> FALSE,        \* ... after which the bounds of responses are unknown
              broke |-> FALSE,       \* the server closed the connection
              calls |-> TLCEval([i \in 1..ev.nc |-> 0]),
              first |-> TLCEval([i \in 1..ev.nc |-> None])]  \* results of the first run

Run(st, ev) == [st EXCEPT !.run = ev.r, !.cmd = <<>>, !.q = <<>>, !.pos = <<>>, !.w = <<>>, !.wp = 1, !.wn = 0,
                          !.r = <<>>, !.rp = 1, !.res = <<>>, !.dead = FALSE, !.lost = FALSE, !.broke = FALSE,
                          !.calls = TLCEval([i \in 1..st.nc |-> 0])]

KeyLess(c) == c.t \in {"ve", "fa"}
Allowed(c) == KeyLess(c) \/ KeyOK(c.k)

Add(st, ev) ==
    LET ok == Allowed(ev)
        c == [t |-> ev.t, k |-> ev.k, v |-> ev.v, n |-> ev.n, cas |-> ev.cas, ttl |-> ev.ttl, i |-> ev.i, cc |-> ev.cc]
    IN [st EXCEPT !.cmd = Append(@, c),
                  !.q = IF ok THEN Append(@, c) ELSE @,
                  !.pos = Append(@, IF ok THEN Len(st.q) + 1 ELSE 0)]

\* match the written bytes with the expected requests as far as they are complete
RECURSIVE Match(_)
Match(st) ==
    IF st.wn = Len(st.q) THEN st
    ELSE LET n == ReqMatch(st.w, st.wp, st.q[st.wn + 1]) IN
         IF n = 0 THEN st ELSE Match(TLCEval([st EXCEPT !.wp = @ + n, !.wn = @ + 1]))

W(st, ev) == Match(TLCEval([st EXCEPT !.w = @ \o ev.b]))

RECURSIVE Parse(_)
Parse(st) ==
    IF st.lost \/ Len(st.res) = Len(st.q) THEN st
    ELSE LET fr == TLCEval(Frame(st.r, st.rp)) IN
         IF fr.next = 0 THEN st
         ELSE LET x == TLCEval(Decode(st.q[Len(st.res) + 1].t, fr)) IN
              Parse(TLCEval([st EXCEPT !.res = Append(@, x), !.rp = fr.next, !.dead = @ \/ FatalRes(x), !.lost = x.x \in {"bp", "open"}]))

Rd(st, ev) == Parse(TLCEval([st EXCEPT !.r = @ \o ev.b]))

Seen(ev) == [x |-> ev.x, k |-> ev.k, d |-> ev.d, cas |-> ev.cas, fl |-> ev.fl, m |-> ev.m]

\* what the caller must see, when that is determined
Same(t, want, got) ==
    /\ got.x = want.x
    /\ want.x \in {"se", "ce"} => got.m = want.m
    /\ want.x = "" => /\ got.k = want.k /\ got.d = want.d
                      /\ t = "mg" => got.cas = want.cas /\ got.fl = want.fl

Ret(st, ev) ==
    LET i == ev.c
        c == st.cmd[i]
        got == Seen(ev)
        p == st.pos[i]
    IN IF p = 0
       THEN V(V(st, got.x \notin {"kempty", "klong", "kformat"}, {"C05"}, "key that is not allowed was accepted"),
              got.x \in {"kempty", "klong", "kformat"} /\ got.x \notin KeyErrors(c.k), {"C05"}, "wrong error for the key")
       ELSE
       LET st1 == V(st, got.x \in {"kempty", "klong", "kformat"}, {"C05"}, "allowed key was rejected")
           known == p <= Len(st.res)
           want == st.res[p]
           strict == known /\ want.x # "open"
           \* bytes that may or may not turn out to be a response
           rest == st.rp <= Len(st.r)
           \* an error of the connection, which may be a CLIENT_ERROR another command received
           fails == /\ got.x \notin {"", "again", "kempty", "klong", "kformat", "se"}
                    /\ got.x = "ce" => \E q \in 1..Len(st.res) : st.res[q].x = "ce" /\ st.res[q].m = got.m
           wrong == strict /\ ~Same(c.t, want, got) /\ ~((st.dead \/ rest) /\ fails)
           \* no answer yet and nothing spoiled the connection: it cannot have a result
           early == ~known /\ ~st.dead /\ got.x \notin {"kempty", "klong", "kformat"} /\ ~((rest \/ st.broke) /\ fails)
           st2 == V(st1, wrong, IF want.x \in {"se", "ce", "bp"} THEN {"C03", "C14"} ELSE {"C03"}, "result differs from the response received")
           st3 == V(st2, early, {"C03"}, "result before the response was complete")
           st4 == V(st3, st.dead /\ ~st.lost /\ ~known /\ got.x = "", {"C03"}, "success without a response")
           differs == st.run = 2 /\ strict /\ st.first[i] # None /\ ~Same(c.t, st.first[i], got)
           st5 == V(st4, differs, {"C02"}, "result depends on how the responses were cut into reads")
       IN IF st.run = 1 /\ strict THEN [st5 EXCEPT !.first[i] = got] ELSE st5

End(st, ev) ==
    LET st1 == V(st, ~st.dead /\ st.rp = Len(st.r) + 1 /\ st.wn # Len(st.q), {"C04"}, "requests written are not the commands issued")
        st2 == V(st1, st.wn = Len(st.q) /\ st.wp # Len(st.w) + 1, {"C04", "C05"}, "more was written than the commands issued")
        late == ~st.dead /\ Len(st.res) < Len(st.q)
        st3 == V(st2, ~ev.done, IF st.run = 2 THEN {"C02", "C07"} ELSE {"C07"}, "a call did not return")
        bad == \E i \in 1..Len(st.cmd) : st.pos[i] = 0
        st4 == V(st3, bad /\ (st1.viol # st.viol), {"C05"}, "a rejected command disturbed the others")
    IN st4

Step(st, ev) ==
    CASE ev.e = "cfg" -> Start(ev)
      [] ev.e = "run" -> Run(st, ev)
      [] ev.e = "add" -> Add(st, ev)
      [] ev.e = "w"   -> W(st, ev)
      [] ev.e = "rd"  -> Rd(st, ev)
      [] ev.e = "ret" -> Ret(st, ev)
      [] ev.e = "end" -> End(st, ev)
      [] ev.e = "close" -> V(st, ~st.dead /\ ~st.broke /\ st.rp = Len(st.r) + 1 /\ ev.at < 5000, {"C14"}, "connection dropped without a reason")
      [] ev.e = "reof" -> [st EXCEPT !.broke = TRUE]
      [] ev.e = "rtmo" -> V(st, ~st.dead /\ st.wn = Len(st.q) /\ st.rp = Len(st.r) + 1, {"C04"}, "the server was not sent complete requests")
      [] ev.e = "panic" -> V(st, TRUE, {"C15"}, "panic")
      [] ev.e = "spin" -> V(st, TRUE, {"C15"}, "a goroutine loops for ever")
      [] OTHER -> st

Init == tid \in 1..Len(Traces) /\ l = 1 /\ m = [viol |-> {}]

Next == /\ l <= Len(Traces[tid].ev)
        /\ m' = TLCEval(Step(m, Traces[tid].ev[l]))
        /\ l' = l + 1
        /\ tid' = tid
        /\ IF m'.viol # m.viol THEN PrintT("VIOL " \o ToString(<<Traces[tid].id, l, m'.viol \ m.viol>>)) ELSE TRUE

Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
