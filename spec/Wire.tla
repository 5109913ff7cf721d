-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The byte-level meaning of the protocol: keys, requests and responses.   *)
(* A byte string is a sequence of 0..255; a number is the sequence of its  *)
(* decimal digits (so that 64-bit values need no arithmetic).              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ord(ch) == CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = ch
\* the bytes of a TLA+ string
B(s) == TLCEval([i \in 1..Len(s) |-> 31 + Ord(SubSeq(s, i, i))])

CR == 13
LF == 10
SP == 32
CRLF == <<CR, LF>>

IsDigit(b) == b >= 48 /\ b <= 57
IsNum(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : IsDigit(s[i])
\* numbers are compared without leading zeros
Norm(s) == IF \A i \in 1..Len(s) : s[i] = 48 THEN <<48>>
           ELSE LET k == CHOOSE i \in 1..Len(s) : s[i] # 48 /\ \A j \in 1..(i - 1) : s[j] = 48
                IN SubSeq(s, k, Len(s))
\* value of a number of at most 9 digits
Num(s) == FoldLeft(LAMBDA a, d : a * 10 + (d - 48), 0, s)
RECURSIVE DecDigits(_)
DecDigits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DecDigits(n \div 10), 48 + (n % 10))

Zero == <<48>>

\* numeric order on normalised digit sequences
NumLE(a, b) ==
    \/ Len(a) < Len(b)
    \/ /\ Len(a) = Len(b)
       /\ \/ a = b
          \/ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]

Max32 == TLCEval(B("4294967295"))
\* the largest value of memcached: 2^30 bytes
MaxValue == TLCEval(B("1073741824"))
Max64 == TLCEval(B("18446744073709551615"))

\* fields of a line: maximal runs without a space
Fields(line) ==
    LET st == FoldLeft(LAMBDA a, b :
                  IF b = SP THEN (IF a.c = <<>> THEN a ELSE [f |-> Append(a.f, a.c), c |-> <<>>])
                  ELSE [f |-> a.f, c |-> Append(a.c, b)],
                  [f |-> <<>>, c |-> <<>>], line)
    IN IF st.c = <<>> THEN st.f ELSE Append(st.f, st.c)

\* first position >= p of a CR LF pair (0: none)
FindCRLF(s, p) ==
    LET S == {i \in p..(Len(s) - 1) : s[i] = CR /\ s[i + 1] = LF}
    IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))

(***************************************************************************)
(* Keys                                                                    *)
(***************************************************************************)
MaxKey == 250
KeyByteOK(b) == b > 32 /\ b < 127
KeyOK(k) == Len(k) >= 1 /\ Len(k) <= MaxKey /\ \A i \in 1..Len(k) : KeyByteOK(k[i])

\* errors a caller may see for a key that is not allowed
KeyErrors(k) ==
    (IF Len(k) = 0 THEN {"kempty"} ELSE {}) \cup
    (IF Len(k) > MaxKey THEN {"klong"} ELSE {}) \cup
    (IF \E i \in 1..Len(k) : ~KeyByteOK(k[i]) THEN {"kformat"} ELSE {})

(***************************************************************************)
(* Requests                                                                *)
(***************************************************************************)
tMG == TLCEval(B("mg"))
tMS == TLCEval(B("ms"))
tMD == TLCEval(B("md"))
tVersion == TLCEval(B("version"))
tFlush == TLCEval(B("flush_all"))

Flag(ch, digits) == <<ch>> \o digits

\* the flags a command must carry, as a set of tokens
ReqFlags(c) ==
    CASE c.t = "mg" -> {<<118>>} \cup (IF c.cc THEN {<<99>>} ELSE {}) \cup (IF c.n # Zero THEN {Flag(78, c.n)} ELSE {})
      [] c.t = "ms" -> (IF c.cas # Zero THEN {Flag(67, c.cas)} ELSE {}) \cup (IF c.ttl # Zero THEN {Flag(84, c.ttl)} ELSE {})
      [] c.t = "md" -> (IF c.cas # Zero THEN {Flag(67, c.cas)} ELSE {}) \cup
                       (IF c.i THEN {<<73>>} \cup (IF c.ttl # Zero THEN {Flag(84, c.ttl)} ELSE {}) ELSE {})
      [] OTHER -> {}

\* number of bytes of s, from position p, that are exactly the request of
\* command c (0: they are not)
ReqMatch(s, p, c) ==
    LET e == FindCRLF(s, p)
        line == SubSeq(s, p, e - 1)
        f == Fields(line)
        flagsFrom(k) == {f[i] : i \in k..Len(f)}
        okFlags(k) == flagsFrom(k) = ReqFlags(c) /\ Len(f) - k + 1 = Cardinality(ReqFlags(c))
    IN IF e = 0 \/ f = <<>> THEN 0
       ELSE CASE c.t = "mg" -> IF Len(f) >= 2 /\ f[1] = tMG /\ f[2] = c.k /\ okFlags(3) THEN e + 2 - p ELSE 0
              [] c.t = "md" -> IF Len(f) >= 2 /\ f[1] = tMD /\ f[2] = c.k /\ okFlags(3) THEN e + 2 - p ELSE 0
              [] c.t = "ms" ->
                   LET n == Len(c.v) IN
                   IF /\ Len(f) >= 3 /\ f[1] = tMS /\ f[2] = c.k /\ f[3] = DecDigits(n) /\ okFlags(4)
                      /\ Len(s) >= e + 1 + n + 2
                      /\ SubSeq(s, e + 2, e + 1 + n) = c.v
                      /\ SubSeq(s, e + 2 + n, e + 3 + n) = CRLF
                   THEN e + 4 + n - p ELSE 0
              [] c.t = "ve" -> IF f = <<tVersion>> THEN e + 2 - p ELSE 0
              [] c.t = "fa" -> IF f = <<tFlush>> THEN e + 2 - p ELSE 0

\* one request of a command, for generating streams
EncodeReq(c) ==
    LET fl == FoldLeft(LAMBDA a, x : a \o <<SP>> \o x, <<>>, SetToSeq(ReqFlags(c))) IN
    CASE c.t = "mg" -> tMG \o <<SP>> \o c.k \o fl \o CRLF
      [] c.t = "md" -> tMD \o <<SP>> \o c.k \o fl \o CRLF
      [] c.t = "ms" -> tMS \o <<SP>> \o c.k \o <<SP>> \o DecDigits(Len(c.v)) \o fl \o CRLF \o c.v \o CRLF
      [] c.t = "ve" -> tVersion \o CRLF
      [] c.t = "fa" -> tFlush \o CRLF

(***************************************************************************)
(* Responses                                                               *)
(***************************************************************************)
tVA == TLCEval(B("VA"))
tHD == TLCEval(B("HD"))
tEN == TLCEval(B("EN"))
tNS == TLCEval(B("NS"))
tEX == TLCEval(B("EX"))
tNF == TLCEval(B("NF"))
tOK == TLCEval(B("OK"))
tVER == TLCEval(B("VERSION"))
tSE == TLCEval(B("SERVER_ERROR"))
tCE == TLCEval(B("CLIENT_ERROR"))

\* the response unit that starts at position p of s: its header line, its
\* body and the position after it (next = 0: not complete yet)
Frame(s, p) ==
    LET e == FindCRLF(s, p) IN
    IF e = 0 THEN [line |-> <<>>, body |-> <<>>, next |-> 0, va |-> FALSE, term |-> TRUE]
    ELSE LET line == SubSeq(s, p, e - 1)
             f == Fields(line)
         IN IF Len(f) >= 2 /\ f[1] = tVA /\ IsNum(f[2]) /\ Len(Norm(f[2])) <= 9
            THEN LET n == Num(Norm(f[2])) IN
                 IF Len(s) < e + 1 + n + 2 THEN [line |-> line, body |-> <<>>, next |-> 0, va |-> TRUE, term |-> TRUE]
                 ELSE [line |-> line, body |-> SubSeq(s, e + 2, e + 1 + n), next |-> e + 4 + n, va |-> TRUE,
                       term |-> SubSeq(s, e + 2 + n, e + 3 + n) = CRLF]
            ELSE [line |-> line, body |-> <<>>, next |-> e + 2, va |-> FALSE, term |-> TRUE]

NoRes == [x |-> "", k |-> "", d |-> <<>>, cas |-> Zero, fl |-> 0, m |-> <<>>]

\* flags of a meta get response: W, X, Z and c<number>
FlagTok(t) == t \in {<<87>>, <<88>>, <<90>>} \/ (Len(t) >= 2 /\ t[1] = 99 /\ IsNum(Drop(t, 1)) /\ NumLE(Norm(Drop(t, 1)), Max64))
FlagsOK(ts) == /\ \A i \in 1..Len(ts) : FlagTok(ts[i])
               /\ \A i, j \in 1..Len(ts) : i # j => ts[i][1] # ts[j][1]
FlagBits(ts) ==
    (IF \E i \in 1..Len(ts) : ts[i] = <<87>> THEN 1 ELSE 0) +
    (IF \E i \in 1..Len(ts) : ts[i] = <<88>> THEN 2 ELSE 0) +
    (IF \E i \in 1..Len(ts) : ts[i] = <<90>> THEN 4 ELSE 0)
FlagCas(ts) ==
    IF \E i \in 1..Len(ts) : ts[i][1] = 99
    THEN Norm(Drop(ts[CHOOSE i \in 1..Len(ts) : ts[i][1] = 99], 1)) ELSE Zero

\* the message after an error prefix: one separating space is not part of it
ErrMsg(line, n) == LET d == Drop(line, n) IN IF Len(d) > 0 /\ d[1] = SP THEN Drop(d, 1) ELSE d
ErrLine(line, p) == StartsWith(line, p) /\ (Len(line) = Len(p) \/ line[Len(p) + 1] = SP)

TrimSp(s) ==
    LET S == {i \in 1..Len(s) : s[i] # SP} IN
    IF S = {} THEN <<>>
    ELSE SubSeq(s, CHOOSE i \in S : \A j \in S : i <= j, CHOOSE i \in S : \A j \in S : i >= j)

Two(line) == IF Len(line) >= 2 THEN SubSeq(line, 1, 2) ELSE line

\* kinds of a plain status line for the commands that have no other answer
Plain(t) ==
    CASE t = "ms" -> {[b |-> tHD, k |-> "HD"], [b |-> tNS, k |-> "NS"], [b |-> tEX, k |-> "EX"], [b |-> tNF, k |-> "NF"]}
      [] t = "md" -> {[b |-> tHD, k |-> "HD"], [b |-> tEX, k |-> "EX"], [b |-> tNF, k |-> "NF"]}
      [] t = "fa" -> {[b |-> tOK, k |-> "OK"]}
      [] OTHER -> {}

\* prefixes whose handling on other than well-formed lines is left open
Lenient(t) ==
    CASE t = "mg" -> {tVA, tHD, tEN}
      [] t = "ms" -> {tHD, tNS, tEX, tNF}
      [] t = "md" -> {tHD, tEX, tNF}
      [] t = "ve" -> {<<86, 69>>}
      [] t = "fa" -> {tOK}

(***************************************************************************)
(* The result a caller of a command of type t sees for the framed unit fr. *)
(* x = "" success, "se"/"ce" error of the server with message m, "bp" not  *)
(* a response to this command, "open" left open.                           *)
(***************************************************************************)
Decode(t, fr) ==
    LET f == Fields(fr.line)
        line == fr.line
    IN CASE ErrLine(line, tSE) -> [NoRes EXCEPT !.x = "se", !.m = ErrMsg(line, Len(tSE))]
         [] ErrLine(line, tCE) -> [NoRes EXCEPT !.x = "ce", !.m = ErrMsg(line, Len(tCE))]
         \* a value must be followed by CR LF
         [] fr.va /\ ~fr.term -> [NoRes EXCEPT !.x = "bp"]
         [] t = "mg" /\ fr.va /\ FlagsOK(SubSeq(f, 3, Len(f))) ->
              [NoRes EXCEPT !.k = "VA", !.d = fr.body, !.fl = FlagBits(SubSeq(f, 3, Len(f))), !.cas = FlagCas(SubSeq(f, 3, Len(f)))]
         [] t = "mg" /\ Len(f) >= 1 /\ f[1] = tHD /\ FlagsOK(SubSeq(f, 2, Len(f))) ->
              [NoRes EXCEPT !.k = "HD", !.fl = FlagBits(SubSeq(f, 2, Len(f))), !.cas = FlagCas(SubSeq(f, 2, Len(f)))]
         [] t = "mg" /\ line = tEN -> [NoRes EXCEPT !.k = "EN"]
         [] t = "ve" /\ StartsWith(line, tVER) /\ Len(line) > Len(tVER) /\ line[Len(tVER) + 1] = SP ->
              [NoRes EXCEPT !.k = "VERSION", !.d = TrimSp(Drop(line, Len(tVER)))]
         [] \E q \in Plain(t) : q.b = line -> [NoRes EXCEPT !.k = (CHOOSE q \in Plain(t) : q.b = line).k]
         \* no value can be that long
         [] Len(f) >= 2 /\ f[1] = tVA /\ IsNum(f[2]) /\ ~NumLE(Norm(f[2]), MaxValue) -> [NoRes EXCEPT !.x = "bp"]
         [] Two(line) \in Lenient(t) \/ fr.va \/ StartsWith(line, tSE) \/ StartsWith(line, tCE) -> [NoRes EXCEPT !.x = "open"]
         [] OTHER -> [NoRes EXCEPT !.x = "bp"]

FatalRes(r) == r.x \in {"ce", "bp", "open"}

\* all responses of a stream, decoded for the command types ts
RECURSIVE DecodeAll(_, _, _, _)
DecodeAll(s, p, ts, acc) ==
    IF Len(acc) = Len(ts) THEN acc
    ELSE LET fr == TLCEval(Frame(s, p)) IN
         IF fr.next = 0 THEN acc
         ELSE LET r == TLCEval(Decode(ts[Len(acc) + 1], fr)) IN
              IF FatalRes(r) THEN Append(acc, r)
              ELSE DecodeAll(s, TLCEval(fr.next), ts, TLCEval(Append(acc, r)))
=============================================================================
