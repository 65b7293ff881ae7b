-------------------------------- MODULE Wire --------------------------------
(* Actor paths, values and messages: their textual and wire forms, who may become part of a path, and the life of a
   message from the call that sends it to the handler that reads it.  Bytes are numbers 0..255; texts are byte sequences.
   A path is [t, ip, port, k, id, segs]: t 0 local 1 tcp 2 udp; ip 4 or 16 bytes; k "u" (id: 16 bytes) or "n" (segs: names). *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

Bytes == 0..255
SLASH == 47  HASH == 35  STAR == 42  QUEST == 63  COLON == 58

Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)
Has(s, c)  == \E i \in 1..Len(s) : s[i] = c
Occ(s, c)  == {i \in 1..Len(s) : s[i] = c}
Least(S)   == CHOOSE x \in S : \A y \in S : x <= y

RECURSIVE Split(_, _)
Split(s, c) == IF ~Has(s, c) THEN <<s>>
               ELSE LET i == Least(Occ(s, c)) IN <<Take(s, i - 1)>> \o Split(Drop(s, i), c)
RECURSIVE Join(_, _)
Join(ss, c) == IF Len(ss) = 0 THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<c>> \o Join(Tail(ss), c)

U16(n) == <<n \div 256, n % 256>>
U32(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
U64(n) == <<0, 0, 0, 0>> \o U32(n)
N16(b, i) == b[i] * 256 + b[i + 1]

(* ---------------------------------------------------------------- UTF-8 *)
Cont(b, i) == i <= Len(b) /\ b[i] \in 128..191
RECURSIVE Utf8From(_, _)
Utf8From(b, i) ==
  IF i > Len(b) THEN TRUE ELSE
  LET x == b[i] IN
  CASE x < 128 -> Utf8From(b, i + 1)
    [] x \in 194..223 -> Cont(b, i + 1) /\ Utf8From(b, i + 2)
    [] x \in 224..239 -> /\ Cont(b, i + 1) /\ Cont(b, i + 2)
                         /\ (x = 224 => b[i + 1] >= 160)
                         /\ (x = 237 => b[i + 1] < 160)
                         /\ Utf8From(b, i + 3)
    [] x \in 240..244 -> /\ Cont(b, i + 1) /\ Cont(b, i + 2) /\ Cont(b, i + 3)
                         /\ (x = 240 => b[i + 1] >= 144)
                         /\ (x = 244 => b[i + 1] < 144)
                         /\ Utf8From(b, i + 4)
    [] OTHER -> FALSE
Utf8(b) == Utf8From(b, 1)
Char(b4) == LET hi == b4[1] * 256 + b4[2] lo == b4[3] * 256 + b4[4]
            IN hi < 16 + 1 /\ ~(hi = 0 /\ lo \in 55296..57343)

(* ---------------------------------------------------------------- names *)
\* a name at a position: never empty, never containing the separators; a marker alone only at the end
LookupSeg(s, last) == /\ Len(s) > 0
                      /\ ~Has(s, SLASH) /\ ~Has(s, HASH)
                      /\ (~last => s # <<STAR>> /\ s # <<QUEST>>)
LookupOk(ss) == \A i \in 1..Len(ss) : LookupSeg(ss[i], i = Len(ss))
InsertOk(ss) == \A i \in 1..Len(ss) : /\ Len(ss[i]) > 0
                                      /\ \A c \in {SLASH, HASH, STAR, QUEST} : ~Has(ss[i], c)

IsPath(p) == /\ p.t \in 0..2
             /\ Len(p.ip) \in {4, 16}
             /\ p.port \in 0..65535
             /\ CASE p.k = "u" -> Len(p.id) = 16 /\ p.segs = <<>>
                  [] p.k = "n" -> p.id = <<>> /\ LookupOk(p.segs) /\ \A i \in 1..Len(p.segs) : Utf8(p.segs[i])
                  [] OTHER -> FALSE

(* ---------------------------------------------------------------- text *)
Protos == <<<<108, 111, 99, 97, 108>>, <<116, 99, 112>>, <<117, 100, 112>>>>
Marks(tx) == {i \in 1..(Len(tx) - 2) : tx[i] = COLON /\ tx[i + 1] = SLASH /\ tx[i + 2] = SLASH}
NoPath == [t |-> 0, ip |-> <<0, 0, 0, 0>>, port |-> 0, k |-> "n", id |-> <<>>, segs |-> <<>>]
Fail == [r |-> "err", q |-> NoPath]

\* sk: what the address library says about the text between "://" and the first separator; uu: the uuid after '#', or empty
RefParse(tx, how, sk, uu) ==
  IF Cardinality(Marks(tx)) # 1 THEN Fail ELSE
  LET m    == Least(Marks(tx))
      pr   == Take(tx, m - 1)
      rest == Drop(tx, m + 2)
      ts   == {i \in 1..3 : Protos[i] = pr}
  IN IF ts = {} \/ ~sk.ok THEN Fail ELSE
     LET t == Least(ts) - 1
         base == [NoPath EXCEPT !.t = t, !.ip = sk.ip, !.port = sk.port]
     IN IF Has(tx, HASH)
        THEN LET ps == Split(rest, HASH) IN
             IF how = "named" \/ Len(ps) # 2 \/ Has(ps[1], SLASH) \/ Len(uu) # 16 THEN Fail
             ELSE [r |-> "ok", q |-> [base EXCEPT !.k = "u", !.id = uu]]
        ELSE LET ps == Split(rest, SLASH) segs == Tail(ps) IN
             IF how = "unique" \/ ~LookupOk(segs) THEN Fail
             ELSE [r |-> "ok", q |-> [base EXCEPT !.segs = segs]]

\* a rendering for IPv4 addresses, used by the design model
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE IF n < 100 THEN <<48 + (n \div 10), 48 + (n % 10)>>
             ELSE <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
HexD(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE Hex(_)
Hex(b) == IF b = <<>> THEN <<>> ELSE <<HexD(b[1] \div 16), HexD(b[1] % 16)>> \o Hex(Tail(b))
Addr4(p) == Dec(p.ip[1]) \o <<46>> \o Dec(p.ip[2]) \o <<46>> \o Dec(p.ip[3]) \o <<46>> \o Dec(p.ip[4]) \o <<COLON>> \o Dec(p.port)
Render(p) == Protos[p.t + 1] \o <<COLON, SLASH, SLASH>> \o Addr4(p)
             \o (IF p.k = "u" THEN <<HASH>> \o Hex(p.id)
                 ELSE IF p.segs = <<>> THEN <<>> ELSE <<SLASH>> \o Join(p.segs, SLASH))

(* ---------------------------------------------------------------- wire form of paths *)
EncSys(p) == <<(IF p.k = "n" THEN 128 ELSE 0) + (IF Len(p.ip) = 16 THEN 32 ELSE 0) + p.t>> \o p.ip \o U16(p.port)
NameBytes(p) == Join(p.segs, SLASH)
EncPath(p) == EncSys(p) \o (IF p.k = "u" THEN p.id ELSE U16(Len(NameBytes(p))) \o NameBytes(p))

DFail == [r |-> "err", q |-> NoPath, used |-> 0]
\* which kind of header: the two documented layouts agree on path type (bit 7) and transport (low bits); the address type
\* is whatever two bits the encoder uses, taken from the form of the encoding above
DecSys(b) ==
  IF Len(b) < 1 THEN DFail ELSE
  LET h == b[1] t == h % 32 at == (h \div 32) % 4 n == IF at = 1 THEN 16 ELSE 4 IN
  IF t > 2 \/ at > 1 \/ Len(b) < 1 + n + 2 THEN DFail
  ELSE [r |-> "ok", used |-> n + 3,
        q |-> [NoPath EXCEPT !.t = t, !.ip = SubSeq(b, 2, n + 1), !.port = N16(b, n + 2)]]
DecPath(b) ==
  LET s == DecSys(b) IN
  IF s.r = "err" THEN DFail ELSE
  LET u == s.used IN
  IF b[1] < 128
  THEN IF Len(b) < u + 16 THEN DFail
       ELSE [r |-> "ok", used |-> u + 16, q |-> [s.q EXCEPT !.k = "u", !.id = SubSeq(b, u + 1, u + 16)]]
  ELSE IF Len(b) < u + 2 THEN DFail ELSE
       LET n == N16(b, u + 1) IN
       IF Len(b) < u + 2 + n THEN DFail ELSE
       LET nm == SubSeq(b, u + 3, u + 2 + n)
           segs == IF n = 0 THEN <<>> ELSE Split(nm, SLASH)
       IN IF ~Utf8(nm) \/ ~LookupOk(segs) THEN DFail
          ELSE [r |-> "ok", used |-> u + 2 + n, q |-> [s.q EXCEPT !.segs = segs]]

(* ---------------------------------------------------------------- values *)
Types == {"str", "u64", "unit", "rawa", "rawb", "serde", "apath", "spath", "bad"}
Id(ty) == CASE ty = "str" -> 6 [] ty = "u64" -> 7 [] ty = "unit" -> 8 [] ty = "rawa" -> 100 [] ty = "rawb" -> 101
            [] ty = "serde" -> 102 [] ty = "apath" -> 4 [] ty = "spath" -> 5 [] OTHER -> 103

\* values of the recursive type travel in traces as tokens; from position i on: [b: encoding, i: next position]
RECURSIVE EncT(_, _), EncTs(_, _, _), EncKs(_, _, _)
EncT(t, i) ==
  LET k == t[i] hd == U32(k) IN
  CASE k = 0 -> [b |-> hd, i |-> i + 1]
    [] k \in {1, 2} -> [b |-> hd \o <<t[i + 1]>>, i |-> i + 2]
    [] k = 3 -> [b |-> hd \o SubSeq(t, i + 1, i + 8), i |-> i + 9]
    [] k = 4 -> [b |-> hd \o U64(t[i + 1]) \o SubSeq(t, i + 2, i + 1 + t[i + 1]), i |-> i + 2 + t[i + 1]]
    [] k = 5 -> LET r == EncTs(t, i + 2, t[i + 1]) IN [b |-> hd \o U64(t[i + 1]) \o r.b, i |-> r.i]
    [] k = 6 -> LET r == EncKs(t, i + 2, t[i + 1]) IN [b |-> hd \o U64(t[i + 1]) \o r.b, i |-> r.i]
    [] k = 7 -> IF t[i + 1] = 0 THEN [b |-> hd \o <<0>>, i |-> i + 2]
                ELSE LET r == EncT(t, i + 2) IN [b |-> hd \o <<1>> \o r.b, i |-> r.i]
    [] k = 8 -> LET r == EncT(t, i + 3) IN [b |-> hd \o SubSeq(t, i + 1, i + 2) \o r.b, i |-> r.i]
    [] k \in {9, 11} -> LET r == EncT(t, i + 5) IN [b |-> hd \o SubSeq(t, i + 1, i + 4) \o r.b, i |-> r.i]
    [] k = 10 -> [b |-> hd \o SubSeq(t, i + 1, i + 4), i |-> i + 5]
    [] k = 12 -> [b |-> hd \o SubSeq(t, i + 1, i + 33), i |-> i + 34]
    [] k = 13 -> [b |-> hd \o SubSeq(t, i + 1, i + 2), i |-> i + 3]
EncTs(t, i, n) == IF n = 0 THEN [b |-> <<>>, i |-> i]
                  ELSE LET x == EncT(t, i) r == EncTs(t, x.i, n - 1) IN [b |-> x.b \o r.b, i |-> r.i]
EncKs(t, i, n) == IF n = 0 THEN [b |-> <<>>, i |-> i]
                  ELSE LET x == EncT(t, i + 1) r == EncKs(t, x.i, n - 1) IN [b |-> <<t[i]>> \o x.b \o r.b, i |-> r.i]

EncV(v) == CASE v.ty = "str" -> U64(Len(v.b)) \o v.b
             [] v.ty = "serde" -> EncT(v.b, 1).b
             [] OTHER -> v.b

\* decoding: [ok, free, v, i]; free: the bytes are no encoding this specification speaks about, any orderly answer will do
DE == [ok |-> FALSE, free |-> FALSE, v |-> <<>>, i |-> 0]
Left(b, i) == Len(b) - i + 1
Ok(v, i)  == [ok |-> TRUE, free |-> FALSE, v |-> v, i |-> i]
\* a length at i: -1 if it cannot be one
LenAt(b, i) == IF Left(b, i) < 8 THEN 0 - 1
               ELSE IF b[i] + b[i + 1] + b[i + 2] + b[i + 3] > 0 \/ b[i + 4] > 0 THEN 0 - 1
               ELSE b[i + 5] * 65536 + b[i + 6] * 256 + b[i + 7]
RECURSIVE DecT(_, _), DecTs(_, _, _), DecKs(_, _, _, _)
With(hd, r) == IF r.ok THEN [r EXCEPT !.v = hd \o r.v] ELSE r
DecT(b, i) ==
  IF Left(b, i) < 4 THEN DE ELSE
  IF b[i] + b[i + 1] + b[i + 2] > 0 \/ b[i + 3] > 13 THEN DE ELSE
  LET k == b[i + 3] j == i + 4 IN
  CASE k = 0 -> Ok(<<0>>, j)
    [] k = 1 -> IF Left(b, j) < 1 THEN DE ELSE [Ok(<<1, b[j]>>, j + 1) EXCEPT !.free = b[j] > 1]
    [] k = 2 -> IF Left(b, j) < 1 THEN DE ELSE Ok(<<2, b[j]>>, j + 1)
    [] k = 3 -> IF Left(b, j) < 8 THEN DE ELSE Ok(<<3>> \o SubSeq(b, j, j + 7), j + 8)
    [] k = 4 -> LET n == LenAt(b, j) IN
                IF Left(b, j) < 8 \/ n = 0 - 1 \/ Left(b, j) < 8 + n THEN DE
                ELSE LET s == SubSeq(b, j + 8, j + 7 + n) IN IF Utf8(s) THEN Ok(<<4, n>> \o s, j + 8 + n) ELSE DE
    [] k = 5 -> LET n == LenAt(b, j) IN IF n = 0 - 1 \/ n > Left(b, j) THEN DE ELSE With(<<5, n>>, DecTs(b, j + 8, n))
    [] k = 6 -> LET n == LenAt(b, j) IN IF n = 0 - 1 \/ n > Left(b, j) THEN DE ELSE With(<<6, n>>, DecKs(b, j + 8, n, 0 - 1))
    [] k = 7 -> IF Left(b, j) < 1 THEN DE ELSE
                IF b[j] = 0 THEN Ok(<<7, 0>>, j + 1)
                ELSE LET r == With(<<7, 1>>, DecT(b, j + 1)) IN [r EXCEPT !.free = r.free \/ b[j] > 1]
    [] k = 8 -> IF Left(b, j) < 2 THEN DE ELSE With(<<8, b[j], b[j + 1]>>, DecT(b, j + 2))
    [] k \in {9, 11} -> IF Left(b, j) < 4 THEN DE ELSE With(<<k>> \o SubSeq(b, j, j + 3), DecT(b, j + 4))
    [] k = 10 -> IF Left(b, j) < 4 THEN DE
                 ELSE IF Char(SubSeq(b, j, j + 3)) THEN Ok(<<10>> \o SubSeq(b, j, j + 3), j + 4) ELSE DE
    [] k = 12 -> IF Left(b, j) < 33 THEN DE ELSE Ok(<<12>> \o SubSeq(b, j, j + 32), j + 33)
    [] k = 13 -> IF Left(b, j) < 2 THEN DE ELSE Ok(<<13, b[j], b[j + 1]>>, j + 2)
DecTs(b, i, n) == IF n = 0 THEN Ok(<<>>, i) ELSE
                  LET x == DecT(b, i) IN
                  IF ~x.ok THEN x ELSE LET r == DecTs(b, x.i, n - 1) IN
                  [With(x.v, r) EXCEPT !.free = x.free \/ r.free]
DecKs(b, i, n, last) == IF n = 0 THEN Ok(<<>>, i) ELSE
                  IF Left(b, i) < 1 THEN DE ELSE
                  LET x == DecT(b, i + 1) IN
                  IF ~x.ok THEN x ELSE LET r == DecKs(b, x.i, n - 1, b[i]) IN
                  [With(<<b[i]>> \o x.v, r) EXCEPT !.free = x.free \/ r.free \/ b[i] <= last]

DecV(ty, b) ==
  CASE ty = "str" -> LET n == LenAt(b, 1) IN
                     IF n = 0 - 1 \/ Len(b) < 8 + n THEN DE
                     ELSE LET s == SubSeq(b, 9, 8 + n) IN IF Utf8(s) THEN Ok(s, 9 + n) ELSE DE
    [] ty = "u64" -> IF Len(b) < 8 THEN DE ELSE Ok(Take(b, 8), 9)
    [] ty = "unit" -> Ok(<<>>, 1)
    [] ty \in {"rawa", "rawb"} -> Ok(b, Len(b) + 1)
    [] ty = "serde" -> DecT(b, 1)
    [] ty = "apath" -> LET d == DecPath(b) IN IF d.r = "ok" THEN Ok(Take(b, d.used), d.used + 1) ELSE DE
    \* a system path alone: what kind of path it belongs to is ignored
    [] ty = "spath" -> LET d == DecSys(b) IN IF d.r = "ok" THEN Ok(EncSys([d.q EXCEPT !.k = "u"]), d.used + 1) ELSE DE

(* ---------------------------------------------------------------- messages *)
Magic == <<192, 161, 186, 17>>
Body(s, d, v) == EncPath(s) \o EncPath(d) \o U64(Id(v.ty)) \o EncV(v)
Frame(s, d, v) == LET x == Body(s, d, v) IN Magic \o U32(Len(x)) \o <<2>> \o x

DecMsg(b) ==
  LET s == DecPath(b) IN
  IF s.r = "err" THEN [r |-> "err", s |-> NoPath, d |-> NoPath, rest |-> <<>>, id |-> <<0, 0>>] ELSE
  LET b2 == Drop(b, s.used) d == DecPath(b2) IN
  IF d.r = "err" THEN [r |-> "err", s |-> NoPath, d |-> NoPath, rest |-> <<>>, id |-> <<0, 0>>] ELSE
  LET b3 == Drop(b2, d.used) IN
  IF Len(b3) < 8 THEN [r |-> "err", s |-> NoPath, d |-> NoPath, rest |-> <<>>, id |-> <<0, 0>>]
  ELSE [r |-> "ok", s |-> s.q, d |-> d.q, rest |-> Drop(b3, 8),
        id |-> <<(b3[1] % 128) * 16777216 + b3[2] * 65536 + b3[3] * 256 + b3[4],
                 (b3[5] % 128) * 16777216 + b3[6] * 65536 + b3[7] * 256 + b3[8]>>]

(* The life of a message: what was sent stays what it is, whichever way it takes. *)
VARIABLES own,    \* the path of the sending component
          tight,  \* buffers may run out in this history
          pend,   \* messages handed to the dispatcher: m -> [s, d, v, ss, lazy]
          msgs,   \* messages that arrived and were not read yet: m -> [s, d, v, ss, boxed]
          pres    \* values serialised ahead of time: slot -> v
wvars == <<own, tight, pend, msgs, pres>>

Empty == [x \in {} |-> 0]
Put(f, k, x) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN x ELSE f[y]]
Del(f, k) == [y \in DOMAIN f \ {k} |-> f[y]]

WInit(o, t) == own = o /\ tight = t /\ pend = Empty /\ msgs = Empty /\ pres = Empty

\* the sender that a receiver will see
Source(way, dst, hasfrom, from, src) ==
  IF hasfrom THEN from
  ELSE IF way = "fwd" THEN msgs[src].s
  ELSE [own EXCEPT !.t = dst.t]

\* may the sending call refuse?
Refusable(way, dst, v) == \/ tight /\ way \in {"tser", "tpre"}
                          \/ v.ty = "bad" /\ (way = "tpre" \/ (way = "tser" /\ dst.t # 0))

Preserialise(slot, v, r) ==
  /\ \/ r = "ok" /\ v.ty # "bad" /\ pres' = Put(pres, slot, v)
     \/ r = "err" /\ (v.ty = "bad" \/ tight) /\ UNCHANGED pres
  /\ UNCHANGED <<own, tight, pend, msgs>>

\* way: tell, tser, tpre, fwd
SendMsg(m, way, dst, hasfrom, from, v, src, slot, r) ==
  LET x == CASE way = "fwd" -> msgs[src].v [] way = "tpre" -> pres[slot] [] OTHER -> v
      s == Source(way, dst, hasfrom, from, src)
      lz == CASE way = "fwd" -> msgs[src].boxed [] way = "tell" -> TRUE [] way = "tser" -> dst.t = 0 [] OTHER -> FALSE
      ss == IF way = "fwd" THEN msgs[src].ss ELSE 0
  IN /\ way = "fwd" => src \in DOMAIN msgs
     /\ way = "tpre" => slot \in DOMAIN pres
     /\ \/ r = "ok" /\ ~(x.ty = "bad" /\ ~lz) /\ pend' = Put(pend, m, [s |-> s, d |-> dst, v |-> x, ss |-> ss, lazy |-> lz])
        \/ r = "err" /\ Refusable(way, dst, x) /\ pend' = Del(pend, m)
     /\ msgs' = IF way = "fwd" THEN Del(msgs, src) ELSE msgs
     /\ UNCHANGED <<own, tight, pres>>

OnWire(m, by) == m \in DOMAIN pend /\ by = Frame(pend[m].s, pend[m].d, pend[m].v)

Arrive(m, then, r, ss) ==
  /\ m \in DOMAIN pend
  /\ \/ /\ r = "ok"
        /\ then = "local" \/ pend[m].v.ty # "bad"
        /\ msgs' = Put(msgs, m, [s |-> pend[m].s, d |-> pend[m].d, v |-> pend[m].v,
                                 ss |-> IF ss > 0 THEN ss ELSE IF then = "local" THEN pend[m].ss ELSE 0,
                                 boxed |-> then = "local" /\ pend[m].lazy])
     \/ /\ r = "err"
        /\ then # "local" /\ (tight \/ pend[m].v.ty = "bad")
        /\ UNCHANGED msgs
  /\ pend' = Del(pend, m)
  /\ UNCHANGED <<own, tight, pres>>

CloneMsg(m, n, r) ==
  /\ m \in DOMAIN msgs
  /\ \/ r = "ok" /\ msgs[m].v.ty # "bad" /\ msgs' = Put(msgs, n, [msgs[m] EXCEPT !.boxed = FALSE])
     \/ r = "err" /\ msgs[m].v.ty = "bad" /\ UNCHANGED msgs
  /\ UNCHANGED <<own, tight, pend, pres>>

DropMsg(m) == msgs' = Del(msgs, m) /\ UNCHANGED <<own, tight, pend, pres>>
DropPre(s) == pres' = Del(pres, s) /\ UNCHANGED <<own, tight, pend, msgs>>

\* reading as the right type gives the value; as another type gives the message back, unchanged
ReadMsg(m, ty, r, v) ==
  /\ m \in DOMAIN msgs
  /\ \/ r = "ok" /\ ty = msgs[m].v.ty /\ v = msgs[m].v /\ msgs' = Del(msgs, m)
     \/ r = "nomatch" /\ ty # msgs[m].v.ty /\ UNCHANGED msgs
  /\ UNCHANGED <<own, tight, pend, pres>>

MatchMsg(m, list, r, v) ==
  /\ m \in DOMAIN msgs
  /\ \/ r = "ok" /\ msgs[m].v.ty \in list /\ v = msgs[m].v
     \/ r = "default" /\ msgs[m].v.ty \notin list
  /\ msgs' = Del(msgs, m)
  /\ UNCHANGED <<own, tight, pend, pres>>
=============================================================================
