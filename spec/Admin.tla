------------------------------- MODULE Admin -------------------------------
(***************************************************************************)
(* The statistics client (stats, stats slabs, stats items, lru_crawler     *)
(* metadump) as a deterministic machine over the bytes received, and the   *)
(* password handshake of a new connection.                                 *)
(***************************************************************************)
EXTENDS Wire

cmdText(op) ==
    CASE op = "general" -> B("stats")
      [] op = "slabs" -> B("stats slabs")
      [] op = "items" -> B("stats items")
      [] op = "dump" -> B("lru_crawler metadump all")
CmdGeneral == TLCEval(cmdText("general") \o CRLF)
CmdSlabs == TLCEval(cmdText("slabs") \o CRLF)
CmdItems == TLCEval(cmdText("items") \o CRLF)
CmdDump == TLCEval(cmdText("dump") \o CRLF)
Command(op) == CASE op = "general" -> CmdGeneral [] op = "slabs" -> CmdSlabs [] op = "items" -> CmdItems [] OTHER -> CmdDump

tEND == TLCEval(B("END"))
tSTAT == TLCEval(B("STAT"))
Colon == 58
Eq == 61

\* split at every occurrence of a byte (empty parts are kept)
Split(s, sep) ==
    LET st == FoldLeft(LAMBDA a, b : IF b = sep THEN [f |-> Append(a.f, a.c), c |-> <<>>] ELSE [f |-> a.f, c |-> Append(a.c, b)],
                       [f |-> <<>>, c |-> <<>>], s)
    IN Append(st.f, st.c)

U64(s) == IsNum(s) /\ NumLE(Norm(s), Max64)
U32(s) == IsNum(s) /\ NumLE(Norm(s), Max32)
MaxS == TLCEval(B("9223372036854775807"))
MinS == TLCEval(B("9223372036854775808"))
S64(s) == \/ IsNum(s) /\ NumLE(Norm(s), MaxS)
          \/ Len(s) > 1 /\ s[1] = 45 /\ IsNum(Drop(s, 1)) /\ NumLE(Norm(Drop(s, 1)), MinS)
NormS(s) == IF s[1] = 45 THEN (IF Norm(Drop(s, 1)) = Zero THEN Zero ELSE <<45>> \o Norm(Drop(s, 1))) ELSE Norm(s)

(***************************************************************************)
(* Statistics                                                              *)
(***************************************************************************)
\* field names: bytes -> field of the result
Names(strs) == TLCEval([b \in {B(s) : s \in strs} |-> CHOOSE s \in strs : B(s) = b])

GeneralNames == TLCEval(Names({"pid", "uptime"}))
SlabTop == TLCEval([b \in {B("active_slabs"), B("total_malloced")} |-> IF b = B("active_slabs") THEN "active" ELSE "malloced"])
Slab32 == {"chunk_size", "chunks_per_page", "total_pages"}
SlabAll == Slab32 \cup {"total_chunks", "used_chunks"}
SlabNames == TLCEval(Names(SlabAll))
ItemAll == {"number", "number_hot", "number_warm", "number_cold", "age_hot", "age_warm", "age", "mem_requested", "evicted",
  "evicted_nonzero", "evicted_time", "outofmemory", "tailrepairs", "reclaimed", "expired_unfetched", "evicted_unfetched", "evicted_active",
  "crawler_reclaimed", "crawler_items_checked", "lrutail_reflocked", "moves_to_cold", "moves_to_warm", "moves_within_lru", "direct_reclaims",
  "hits_to_hot", "hits_to_warm", "hits_to_cold", "hits_to_temp"}
ItemNames == TLCEval(Names(ItemAll))

NewSlab == TLCEval([f \in SlabAll |-> Zero])
NewItem == TLCEval([f \in ItemAll |-> Zero])

Empty(op) ==
    CASE op = "general" -> [pid |-> Zero, uptime |-> Zero]
      [] op = "slabs" -> [active |-> Zero, malloced |-> Zero, ids |-> <<>>, slabs |-> <<>>]
      [] op = "items" -> [ids |-> <<>>, slabs |-> <<>>]
      [] OTHER -> [items |-> <<>>]

Index(seq, x) == IF \E i \in 1..Len(seq) : seq[i] = x THEN CHOOSE i \in 1..Len(seq) : seq[i] = x ELSE 0

\* set one field of one slab class; classes are listed in order of first appearance
SetField(res, id, new, f, v) ==
    LET k == Index(res.ids, id) IN
    IF k # 0 THEN [res EXCEPT !.slabs[k] = [@ EXCEPT ![f] = v]]
    ELSE [res EXCEPT !.ids = Append(@, id), !.slabs = Append(@, [new EXCEPT ![f] = v])]

Bad == [ok |-> FALSE]
Good(r) == [ok |-> TRUE, r |-> r]

\* one line "STAT <key> <value>"
Apply(op, res, k, v) ==
    CASE op = "general" ->
           IF k \in DOMAIN GeneralNames THEN (IF U64(v) THEN Good([res EXCEPT ![GeneralNames[k]] = Norm(v)]) ELSE Bad) ELSE Good(res)
      [] op = "slabs" ->
           IF k \in DOMAIN SlabTop
           THEN LET f == SlabTop[k] IN
                IF (f = "active" /\ U32(v)) \/ (f = "malloced" /\ U64(v)) THEN Good([res EXCEPT ![f] = Norm(v)]) ELSE Bad
           ELSE LET p == Split(k, Colon) IN
                IF Len(p) < 2 THEN Bad
                ELSE IF ~U32(p[1]) THEN Bad
                ELSE IF p[2] \notin DOMAIN SlabNames THEN Good(res)
                ELSE LET f == SlabNames[p[2]] IN
                     IF (f \in Slab32 /\ U32(v)) \/ (f \notin Slab32 /\ U64(v))
                     THEN Good(SetField(res, Norm(p[1]), NewSlab, f, Norm(v))) ELSE Bad
      [] op = "items" ->
           LET p == Split(k, Colon) IN
           IF Len(p) < 3 THEN Bad
           ELSE IF ~U32(p[2]) THEN Bad
           ELSE IF p[3] \notin DOMAIN ItemNames THEN Good(res)
           ELSE IF U64(v) THEN Good(SetField(res, Norm(p[2]), NewItem, ItemNames[p[3]], Norm(v))) ELSE Bad

(***************************************************************************)
(* Metadump                                                                *)
(***************************************************************************)
IsHex(b) == IsDigit(b) \/ (b >= 65 /\ b <= 70) \/ (b >= 97 /\ b <= 102)
HexVal(b) == IF IsDigit(b) THEN b - 48 ELSE IF b <= 70 THEN b - 55 ELSE b - 87
Percent == 37

\* percent decoding; st.c: pending bytes of an escape
UrlDec(s) ==
    LET st == FoldLeft(LAMBDA a, b :
                IF ~a.ok THEN a
                ELSE CASE a.c = <<>> /\ b = Percent -> [a EXCEPT !.c = <<b>>]
                       [] a.c = <<>> -> [a EXCEPT !.o = Append(@, b)]
                       [] ~IsHex(b) -> [a EXCEPT !.ok = FALSE]
                       [] Len(a.c) = 1 -> [a EXCEPT !.c = Append(@, b)]
                       [] OTHER -> [a EXCEPT !.c = <<>>, !.o = Append(@, HexVal(a.c[2]) * 16 + HexVal(b))],
                [ok |-> TRUE, c |-> <<>>, o |-> <<>>], s)
    IN [ok |-> st.ok /\ st.c = <<>>, o |-> st.o]

NoItem == [key |-> <<>>, exp |-> Zero, la |-> Zero, cas |-> Zero, fetch |-> FALSE, cls |-> Zero, size |-> Zero]
kKey == TLCEval(B("key"))
kExp == TLCEval(B("exp"))
kLA == TLCEval(B("la"))
kCAS == TLCEval(B("cas"))
kFetch == TLCEval(B("fetch"))
kCls == TLCEval(B("cls"))
kSize == TLCEval(B("size"))
vYes == TLCEval(B("yes"))
KeyEq == TLCEval(B("key="))

DumpField(a, kv) ==
    IF ~a.ok THEN a
    ELSE LET p == Split(kv, Eq) IN
         IF Len(p) < 2 THEN Bad
         ELSE LET k == p[1]
                  v == p[2]
              IN CASE k = kKey -> LET u == UrlDec(v) IN IF u.ok THEN Good([a.r EXCEPT !.key = u.o]) ELSE Bad
                   [] k = kExp -> IF S64(v) THEN Good([a.r EXCEPT !.exp = NormS(v)]) ELSE Bad
                   [] k = kLA -> IF S64(v) THEN Good([a.r EXCEPT !.la = NormS(v)]) ELSE Bad
                   [] k = kCAS -> IF U64(v) THEN Good([a.r EXCEPT !.cas = Norm(v)]) ELSE Bad
                   [] k = kFetch -> Good([a.r EXCEPT !.fetch = (v = vYes)])
                   [] k = kCls -> IF U32(v) THEN Good([a.r EXCEPT !.cls = Norm(v)]) ELSE Bad
                   [] k = kSize -> IF U32(v) THEN Good([a.r EXCEPT !.size = Norm(v)]) ELSE Bad
                   [] OTHER -> a
DumpItem(line) == FoldLeft(DumpField, Good(NoItem), Split(line, SP))

(***************************************************************************)
(* One answer, line by line.  ph: "run" results are collected, "skip" the  *)
(* answer has an invalid line (the call fails) and continues until END,    *)
(* "ok" complete, "bad" the call fails and the answer is not followed to   *)
(* its end.                                                                *)
(***************************************************************************)
Answer(op) == [op |-> op, ph |-> "run", res |-> Empty(op)]

StripCR(line) == IF Len(line) > 0 /\ line[Len(line)] = CR THEN SubSeq(line, 1, Len(line) - 1) ELSE line

Line(a, raw) ==
    LET line == StripCR(raw)
        f == Fields(line)
        isEnd == f # <<>> /\ f[1] = tEND
    IN CASE a.ph \in {"ok", "bad"} -> a
         [] a.ph = "skip" -> IF isEnd THEN [a EXCEPT !.ph = "bad"] ELSE a
         [] isEnd /\ (a.op # "dump" \/ line = tEND) -> [a EXCEPT !.ph = "ok"]
         [] a.op = "dump" ->
              LET d == TLCEval(DumpItem(line)) IN
              IF d.ok THEN [a EXCEPT !.res = [items |-> Append(@.items, d.r)]]
              ELSE IF StartsWith(line, KeyEq) THEN [a EXCEPT !.ph = "skip"]
              ELSE [a EXCEPT !.ph = "bad"]
         [] f = <<>> \/ f[1] # tSTAT -> [a EXCEPT !.ph = "bad"]
         [] Len(f) < 3 -> [a EXCEPT !.ph = "skip"]
         [] OTHER -> LET x == TLCEval(Apply(a.op, a.res, f[2], f[3])) IN
                     IF x.ok THEN [a EXCEPT !.res = x.r] ELSE [a EXCEPT !.ph = "skip"]

\* complete lines first; the rest stays in the buffer (n: bytes of the lines that belong to the answer)
Feed(a, buf) ==
    FoldLeft(LAMBDA s, b : IF b = LF THEN [a |-> TLCEval(Line(s.a, s.b)), b |-> <<>>, n |-> IF s.a.ph \in {"run", "skip"} THEN s.n + Len(s.b) + 1 ELSE s.n] ELSE [s EXCEPT !.b = Append(@, b)],
             [a |-> a, b |-> <<>>, n |-> 0], buf)

(***************************************************************************)
(* Password handshake                                                      *)
(***************************************************************************)
tSTORED == TLCEval(B("STORED") \o CRLF)
AuthReq(u, p) == B("set memcached_auth 0 0 ") \o DecDigits(Len(u) + Len(p) + 1) \o CRLF \o u \o <<SP>> \o p \o CRLF
=============================================================================
