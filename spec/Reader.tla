------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* The incremental reader of responses, at the level of the pieces in      *)
(* which the bytes arrive: a model of responseReader (reader.go), with its *)
(* states and its shortcuts for whole headers, composed with a network     *)
(* that cuts every stream of the alphabet in every possible way.           *)
(*                                                                         *)
(* It must find the same units as Wire!Frame, which sees the whole stream, *)
(* report each one as soon as it is complete, not depend on the cuts, and  *)
(* keep nothing across a reset.                                            *)
(***************************************************************************)
EXTENDS Wire, Json

CONSTANTS Starts,  \* streams start with one of these
          MaxMore,   \* bytes after the prefix
          Resets,    \* number of reconnects
          Bug

MinN(a, b) == IF a < b THEN a ELSE b
Alphabet == {86, 65, 32, 48, 50, 13, 10, 72}

VARIABLES s,      \* the bytes sent on the current connection
          pre,    \* length of the prefix of the stream
          pend,   \* those not yet delivered
          rd,     \* the state of the reader
          out,    \* the units it has reported
          n,      \* reconnects
          cuts    \* where the stream was cut
vars == <<s, pre, pend, rd, out, n, cuts>>

R0 == [st |-> "init", tmp |-> <<>>, need |-> 0, bin |-> <<>>, idx |-> 0, hdr |-> <<>>, rem |-> <<>>, err |-> FALSE]

\* results of one step: the new state and the bytes that are left of the piece
Res(r, rest) == [r |-> r, rest |-> rest]
From(d, i) == SubSeq(d, i, Len(d))
Err(r) == Res([r EXCEPT !.err = TRUE, !.st = "done"], <<>>)
Put(r, d) == [r EXCEPT !.hdr = @ \o d]
Done(r, d, k) == Res([Put(r, SubSeq(d, 1, k)) EXCEPT !.st = "done", !.rem = From(d, k + 1)], <<>>)
OneChar(r, d, k, st) == Res([Put(r, SubSeq(d, 1, k)) EXCEPT !.st = st], From(d, k + 1))
All(r, d) == Res(Put(r, d), <<>>)

FirstPos(d, P(_)) == LET S == {i \in 1..Len(d) : P(d[i])} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

Simple(r, d) ==
    LET i == FirstPos(d, LAMBDA b : b = CR) IN
    IF i = 0 THEN All(r, d)
    ELSE IF i < Len(d) /\ d[i + 1] = LF THEN Done(r, d, i + 1)
    ELSE IF Bug = "straycr" /\ i < Len(d) THEN All(r, d)
    ELSE OneChar(r, d, i, "findlf")

TooLong(t) == Len(Norm(t)) > 9
GetNum(r, d) ==
    LET i == FirstPos(d, LAMBDA b : ~IsDigit(b)) IN
    IF i = 0 THEN Res([Put(r, d) EXCEPT !.tmp = IF Bug = "dropdigits" THEN @ ELSE @ \o d], <<>>)
    ELSE LET t == r.tmp \o SubSeq(d, 1, i - 1)
             r1 == Put([r EXCEPT !.tmp = t], SubSeq(d, 1, i - 1))
         IN IF TooLong(t) THEN Err(r1)
            ELSE Res([r1 EXCEPT !.bin = <<>>, !.idx = IF Bug = "keepindex" THEN @ ELSE 0,
                                !.need = Num(Norm(t)) + 2, !.st = "cr"], From(d, i))

\* byte k of what follows the value
TermOK(need, b) == b = CRLF[3 - need]
RECURSIVE Term(_, _)
Term(r, d) ==
    IF r.need = 0 \/ d = <<>> THEN Res(r, d)
    ELSE IF Bug # "anyterm" /\ ~TermOK(r.need, d[1]) THEN Err(r)
    ELSE Term([r EXCEPT !.need = @ - 1], Tail(d))

Data(r, d) ==
    LET room == IF r.need > 2 THEN r.need - 2 ELSE 0
        k == MinN(room, Len(d))
        \* (a write position that is too far ahead loses the end of the value)
        r1 == [r EXCEPT !.bin = @ \o SubSeq(d, 1, k), !.need = @ - k, !.idx = @ + k]
        x == Term(r1, From(d, k + 1))
    IN IF x.r.err THEN x
       ELSE IF x.r.need = 0 THEN Res([x.r EXCEPT !.st = "done", !.rem = x.rest], <<>>)
       ELSE x

FindCR(r, d) ==
    LET i == FirstPos(d, LAMBDA b : b = CR) IN
    IF i = 0 THEN All(r, d)
    ELSE IF i < Len(d) /\ d[i + 1] = LF THEN Data([Put(r, SubSeq(d, 1, i + 1)) EXCEPT !.st = "data"], From(d, i + 2))
    ELSE OneChar(r, d, i, "lf")

FirstNum(r, d) ==
    LET i == FirstPos(d, LAMBDA b : b # SP) IN
    IF i = 0 THEN All(r, d)
    ELSE IF IsDigit(d[i]) THEN Res([Put(r, SubSeq(d, 1, i)) EXCEPT !.tmp = <<d[i]>>, !.st = "num"], From(d, i + 1))
    ELSE Err(r)

StartV(r, d) ==
    IF Len(d) >= 4 /\ SubSeq(d, 1, 3) = <<86, 65, SP>> /\ IsDigit(d[4])
    THEN GetNum([Put(r, SubSeq(d, 1, 4)) EXCEPT !.tmp = <<d[4]>>, !.st = "num"], From(d, 5))
    ELSE IF Bug = "wholeva" /\ Len(d) >= 3 /\ SubSeq(d, 1, 2) = <<86, 65>> THEN Err(r)
    ELSE OneChar(r, d, 1, "finda")

StepR(r, d) ==
    CASE r.st = "init"   -> IF d[1] = 86 THEN StartV(r, d) ELSE Simple([r EXCEPT !.st = "simple"], d)
      [] r.st = "simple" -> Simple(r, d)
      [] r.st = "findlf" -> IF d[1] = LF THEN Done(r, d, 1)
                            ELSE IF Bug = "straycr" THEN Simple([r EXCEPT !.st = "simple"], d) ELSE Err(r)
      [] r.st = "finda"  -> IF d[1] = 65 THEN OneChar(r, d, 1, "num1") ELSE Res([r EXCEPT !.st = "simple"], d)
      [] r.st = "num1"   -> FirstNum(r, d)
      [] r.st = "num"    -> GetNum(r, d)
      [] r.st = "cr"     -> FindCR(r, d)
      [] r.st = "lf"     -> IF d[1] = LF THEN OneChar(r, d, 1, "data") ELSE Err(r)
      [] r.st = "data"   -> Data(r, d)

RECURSIVE Recv(_, _)
Recv(r, d) == IF d = <<>> THEN r ELSE LET x == TLCEval(StepR(r, d)) IN Recv(x.r, x.rest)

\* report complete units, going on with the rest of the last piece
Unit(r) == IF r.err THEN [err |-> TRUE, hdr |-> <<>>, bin |-> <<>>] ELSE
           [err |-> FALSE, hdr |-> r.hdr,
            bin |-> IF Bug = "keepindex" /\ r.idx > Len(r.bin) THEN <<0>> ELSE r.bin]
RECURSIVE Report(_, _)
Report(r, o) ==
    IF r.st = "done"
    THEN IF r.err THEN [r |-> r, o |-> Append(o, Unit(r))]
         ELSE Report([r EXCEPT !.st = "init", !.hdr = <<>>, !.bin = <<>>, !.tmp = <<>>], Append(o, Unit(r)))
    ELSE IF r.st = "init" /\ r.rem # <<>>
    THEN IF Bug = "loserest" THEN [r |-> [r EXCEPT !.rem = <<>>], o |-> o]
         ELSE Report(Recv([r EXCEPT !.rem = <<>>], r.rem), o)
    ELSE [r |-> r, o |-> o]

Failed(o) == o # <<>> /\ o[Len(o)].err
FeedAll(r, o, d) == IF Failed(o) THEN [r |-> r, o |-> o] ELSE Report(TLCEval(Recv(r, d)), o)

Reset(r) == IF Bug = "resetkeepsrest" THEN [R0 EXCEPT !.rem = r.rem]
            ELSE IF Bug = "resetkeepsstate" /\ r.st \in {"findlf", "lf"} THEN [R0 EXCEPT !.st = r.st]
            ELSE [R0 EXCEPT !.idx = r.idx]

(***************************************************************************)
Init == /\ s \in Starts
        /\ pre = Len(s)
        /\ pend = s
        /\ rd = R0 /\ out = <<>> /\ n = 0 /\ cuts = <<>>

Send(b) == /\ Len(s) < pre + MaxMore
           /\ ~Failed(out)
           /\ s' = Append(s, b)
           /\ pend' = Append(pend, b)
           /\ UNCHANGED <<pre, rd, out, n, cuts>>

\* a read returns the first k of the bytes that are on their way
Deliver(k) ==
    LET x == FeedAll(rd, out, SubSeq(pend, 1, k)) IN
    /\ rd' = x.r /\ out' = x.o
    /\ pend' = From(pend, k + 1)
    /\ cuts' = Append(cuts, Len(s) - Len(pend) + k)
    /\ UNCHANGED <<s, pre, n>>

Reconnect == /\ n < Resets
             /\ n' = n + 1
             /\ rd' = Reset(rd)
             /\ out' = <<>> /\ cuts' = <<>>
             /\ s' \in Starts /\ pre' = Len(s') /\ pend' = s'

Next == \/ \E b \in Alphabet : Send(b)
        \/ pend # <<>> /\ \E k \in 1..Len(pend) : Deliver(k)
        \/ Reconnect
Spec == Init /\ [][Next]_vars

View == <<s, pend, rd, out, n>>

(***************************************************************************)
Got == SubSeq(s, 1, Len(s) - Len(pend))

\* no continuation of the bytes from p on is a valid response
Hopeless(x, p) ==
    LET e == FindCRLF(x, p)
        hd == IF e = 0 THEN From(x, p) ELSE SubSeq(x, p, e - 1)
        f == Fields(hd)
    IN \/ \E i \in 1..(Len(hd) - 1) : hd[i] = CR          \* a lone CR
       \/ e # 0 /\ Len(hd) > 0 /\ hd[Len(hd)] = CR
       \/ Len(hd) >= 2 /\ SubSeq(hd, 1, 2) = <<86, 65>> /\     \* VA and no number
          (\E i \in 3..Len(hd) : hd[i] # SP /\ ~IsDigit(hd[i]) /\ (\A j \in 3..(i - 1) : hd[j] = SP))
       \/ e # 0 /\ Len(hd) >= 2 /\ SubSeq(hd, 1, 2) = <<86, 65>> /\ (\A j \in 3..Len(hd) : hd[j] = SP)
       \/ Len(f) >= 2 /\ f[1] = <<86, 65>> /\ IsNum(f[2]) /\ Len(Norm(f[2])) > 9
       \/ Len(f) >= 2 /\ f[1] = <<86, 65>> /\ ~IsNum(f[2])
       \/ /\ Len(f) >= 1 /\ Len(f[1]) > 2 /\ SubSeq(f[1], 1, 2) = <<86, 65>>  \* VA without a space before the number
       \/ /\ e # 0 /\ Len(f) >= 2 /\ f[1] = <<86, 65>> /\ IsNum(f[2]) /\ Len(Norm(f[2])) <= 9
          /\ LET k == e + 2 + Num(Norm(f[2])) IN
             \/ Len(x) >= k /\ x[k] # CR
             \/ Len(x) >= k + 1 /\ x[k + 1] # LF

\* the reader has reported exactly the units of the stream
RECURSIVE Agrees(_, _, _)
Agrees(x, p, o) ==
    LET fr == Frame(x, p) IN
    IF o = <<>> THEN fr.next = 0 \/ Hopeless(x, p)
    ELSE IF o[1].err THEN Hopeless(x, p)
    ELSE IF Hopeless(x, p) THEN TRUE     \* what follows is not specified
    ELSE /\ fr.next # 0
         /\ o[1].hdr = fr.line \o CRLF
         /\ o[1].bin = fr.body
         /\ Agrees(x, fr.next, Tail(o))

Faithful == Agrees(Got, 1, out)
\* one read of everything gives the same
NoCuts == out = FeedAll(R0, <<>>, Got).o
Fresh == Got = <<>> => out = <<>>
=============================================================================
