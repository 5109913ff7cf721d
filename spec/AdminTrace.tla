----------------------------- MODULE AdminTrace -----------------------------
(***************************************************************************)
(* Behaviours of the statistics client and of the password handshake       *)
(* recorded from the real code, checked against Admin.                     *)
(***************************************************************************)
EXTENDS Admin, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, m
vars == <<tid, l, m>>

V(st, cond, ids, why) ==
    IF cond THEN TLCEval([st EXCEPT !.viol = @ \cup {<<i, why>> : i \in ids}]) ELSE st

\* one handshake
Hand == [viol |-> {}, r |-> <<>>, w |-> <<>>, ph |-> "idle", start |-> 0, cause |-> FALSE]

Start(ev) == [viol |-> {}, kind |-> IF "nc" \in DOMAIN ev THEN "admin" ELSE "auth", cfg |-> ev,
              a |-> Answer("general"), cur |-> 0, op |-> "",
              b |-> <<>>,             \* received bytes that are not a complete line yet
              sent |-> 0, used |-> 0, \* bytes of the answers so far, and those used as lines
              w |-> <<>>,             \* bytes written by the current call
              items |-> 0,            \* callbacks of the current call
              cause |-> FALSE,        \* the connection failed or timed out
              act |-> 0,              \* time of the last activity on the connection
              lost |-> FALSE,
              h |-> IF "nc" \in DOMAIN ev THEN <<>> ELSE TLCEval([k \in 1..Len(ev.d) |-> Hand])]

Prop(st) == IF st.op = "dump" THEN "C21" ELSE "C20"

(* ------------------------------ statistics ------------------------------ *)

Call(st, ev) == [st EXCEPT !.cur = ev.i, !.op = ev.op, !.a = Answer(ev.op), !.w = <<>>, !.items = 0, !.cause = FALSE, !.act = ev.at]

Wr(st, ev) == [st EXCEPT !.w = @ \o ev.b, !.act = ev.at]

Rd(st, ev) ==
    IF st.lost THEN [st EXCEPT !.act = ev.at]
    ELSE LET x == TLCEval(Feed(st.a, st.b \o ev.b)) IN
         TLCEval([st EXCEPT !.a = x.a, !.b = x.b, !.used = @ + x.n, !.act = ev.at])

Fail(st, ev) == [st EXCEPT !.cause = TRUE]

Rto(st, ev) == V(Fail(st, ev), ev.at - st.act # st.cfg.rto, {"C23"}, "read timeout at the wrong time")

Item(st, ev) ==
    IF st.lost THEN st
    ELSE LET k == st.items + 1
             got == [key |-> ev.key, exp |-> ev.exp, la |-> ev.la, cas |-> ev.cas, fetch |-> ev.fetch, cls |-> ev.cls, size |-> ev.size]
             st1 == V(st, k > Len(st.a.res.items), {"C21"}, "callback for a line that was not received")
             st2 == V(st1, k <= Len(st.a.res.items) /\ st.a.res.items[k] # got, {"C21"}, "callback differs from the line received")
         IN [st2 EXCEPT !.items = k]

Equal(op, want, got) ==
    CASE op = "general" -> got.pid = want.pid /\ got.uptime = want.uptime
      [] op = "slabs" -> /\ got.active = want.active /\ got.malloced = want.malloced
                         /\ got.ids = want.ids /\ got.n = Len(want.ids)
                         /\ \A i \in 1..Len(want.ids) : \A f \in SlabAll : got.slabs[i][f] = want.slabs[i][f]
      [] op = "items" -> /\ got.ids = want.ids /\ got.n = Len(want.ids)
                         /\ \A i \in 1..Len(want.ids) : \A f \in ItemAll : got.slabs[i][f] = want.slabs[i][f]
      [] OTHER -> got.n = Len(want.items)

Ret(st, ev) ==
    LET p == {Prop(st)}
        st0 == V(st, st.w # Command(st.op), p, "the command written is not the one of the call")
        st1 == V(st0, ev.at - st.act > st.cfg.rto, p \cup {"C23"}, "a call took longer than the read timeout")
        st2 == IF st.lost THEN st1
               ELSE CASE st.a.ph = "ok" ->
                          V(V(st1, ev.x # "", p, "error for a complete answer"),
                            ev.x = "" /\ ~Equal(st.op, st.a.res, ev.r), p, "result differs from the answer")
                      [] st.a.ph \in {"skip", "bad"} -> V(st1, ev.x = "", p, "success for an invalid answer")
                      [] OTHER -> V(V(st1, ev.x = "", p, "success without a complete answer"),
                                    ev.x # "" /\ ~st.cause, p, "error without a cause")
        st3 == V(st2, ~st.lost /\ st.op = "dump" /\ st.items # Len(st.a.res.items), {"C21"}, "a line was not passed to the callback")
        \* what follows an answer that is not a list of statistics is not specified
        lost == st.a.ph = "bad" /\ st.used < st.sent
    IN [st3 EXCEPT !.lost = @ \/ lost]

(* ------------------------------ handshake ------------------------------- *)

UDial(st, cfg, ev) ==
    V(V(st, ev.net # "tcp" \/ ev.addr # "fake:" \o ToString(ev.k) \/ ev.tmo # cfg.d[ev.k].tmo, {"C22", "C23"}, "arguments of dial were not passed on"),
      st.ph # "call", {"C22"}, "more than one dial")

First8(r) == IF Len(r) >= 8 THEN SubSeq(r, 1, 8) ELSE r

URet(st, cfg, ev) ==
    LET c == {"C22"}
        dial == cfg.d[ev.k].dialerr
        good == Len(st.r) >= 8 /\ First8(st.r) = tSTORED
        st1 == V(st, ev.x = "" /\ ~good, c, "connection accepted without STORED")
        st2 == V(st1, ev.x = "" /\ ~ev.conn, c, "success without a connection")
        st3 == V(st2, ev.x # "" /\ ev.conn, c, "a connection was returned with an error")
        st4 == V(st3, ev.x # "" /\ ~dial /\ ~ev.closed, c, "failed handshake leaves the connection open")
        st5 == V(st4, ev.x # "" /\ good /\ ~st.cause, c, "error after STORED")
        st6 == V(st5, ev.x # "" /\ ~dial /\ ~st.cause /\ Len(st.r) < 8, c, "error without a cause")
        st7 == V(st6, Len(st.r) >= 8 /\ ~good /\ ~st.cause /\ ev.x # "auth", c, "wrong error for rejected credentials")
        st8 == V(st7, ev.x = "auth" /\ (Len(st.r) < 8 \/ good), c, "credentials reported as rejected")
        st9 == V(st8, ~dial /\ ~st.cause /\ st.w # AuthReq(cfg.user, cfg.pass), c, "handshake differs from the credentials")
        sta == V(st9, ev.at - st.start > cfg.d[ev.k].tmo, {"C22", "C23"}, "handshake longer than the connect timeout")
        stb == V(sta, ev.x = "" /\ ev.deliv # 8, c, "handshake consumed bytes after STORED")
        stc == V(stb, dial /\ ev.x # "dial", c, "error of dial was not passed on")
    IN [stc EXCEPT !.ph = "done"]

HandStep(st, cfg, ev) ==
    CASE ev.e = "ucall" -> [st EXCEPT !.ph = "call", !.start = ev.at]
      [] ev.e = "udial" -> UDial(st, cfg, ev)
      [] ev.e = "w"  -> IF st.ph = "call" THEN [st EXCEPT !.w = @ \o ev.b] ELSE st
      [] ev.e = "rd" -> IF st.ph = "call" THEN [st EXCEPT !.r = @ \o ev.b] ELSE st
      [] ev.e \in {"reof", "rerr", "werr", "rtmo", "wtmo"} -> IF st.ph = "call" THEN [st EXCEPT !.cause = TRUE] ELSE st
      [] ev.e = "uret" -> URet(st, cfg, ev)
      [] ev.e = "use" -> V(st, ev.x # "" \/ ev.d # <<111, 107>>, {"C22"}, "connection is not usable after the handshake")
      [] OTHER -> st

AuthStep(st, ev) ==
    CASE "k" \in DOMAIN ev ->
           LET h == TLCEval(HandStep(st.h[ev.k], st.cfg, ev))
           IN [st EXCEPT !.h[ev.k] = h, !.viol = @ \cup h.viol]
      [] ev.e = "newerr" -> V(st, TRUE, {"C22"}, "credentials were not accepted")
      [] ev.e = "end" -> V(st, ~ev.done, {"C22"}, "dial did not return")
      [] ev.e \in {"panic", "spin"} -> V(st, TRUE, {"C22", "C15"}, "panic or endless loop")
      [] OTHER -> st

AdminStep(st, ev) ==
    CASE ev.e = "acall" -> Call(st, ev)
      [] ev.e = "w"  -> Wr(st, ev)
      [] ev.e = "ans" -> [st EXCEPT !.sent = @ + ev.n]
      [] ev.e = "rd" -> Rd(st, ev)
      [] ev.e = "rtmo" -> Rto(st, ev)
      [] ev.e \in {"reof", "rerr"} -> Fail(st, ev)
      [] ev.e = "item" -> Item(st, ev)
      [] ev.e = "aret" -> Ret(st, ev)
      [] ev.e = "end" -> V(V(st, ~ev.done, {Prop(st), "C23"}, "a call did not return"), ev.done /\ ~ev.closed, {Prop(st)}, "connection is open after Close")
      [] ev.e \in {"panic", "spin"} -> V(st, TRUE, {Prop(st), "C15"}, "panic or endless loop")
      [] OTHER -> st

Step(st, ev) ==
    IF ev.e = "cfg" THEN Start(ev)
    ELSE IF st.kind = "auth" THEN AuthStep(st, ev) ELSE AdminStep(st, ev)

Init == tid \in 1..Len(Traces) /\ l = 1 /\ m = [viol |-> {}]

Next == /\ l <= Len(Traces[tid].ev)
        /\ m' = TLCEval(Step(m, Traces[tid].ev[l]))
        /\ l' = l + 1
        /\ tid' = tid
        /\ IF m'.viol # m.viol THEN PrintT("VIOL " \o ToString(<<Traces[tid].id, l, m'.viol \ m.viol>>)) ELSE TRUE

Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
