----------------------------- MODULE Datagrams -----------------------------
(* C23.  Messages over UDP: every datagram stands alone.                      *)
(* What a datagram means is decided from its bytes: the first frame in it, if *)
(* it is a whole data frame holding a message.  Nothing that was in another   *)
(* datagram matters.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

W == INSTANCE Wire WITH own <- 0, tight <- 0, pend <- 0, msgs <- 0, pres <- 0

MAXOUT  == 65507      \* no datagram is larger (IPv4; IPv6 allows 20 more)
HEADLEN == 200        \* so many bytes of a datagram are known; behind them only the pattern of a Blob

N32(b, i) == IF b[i] >= 64 THEN 1073741824 ELSE ((b[i] * 256 + b[i + 1]) * 256 + b[i + 2]) * 256 + b[i + 3]
N64(b, i) == IF \E j \in 0..3 : b[i + j] > 0 THEN 1073741824 ELSE N32(b, i + 4)
Low(b, i) == (((b[i] % 64) * 256 + b[i + 1]) * 256 + b[i + 2]) * 256 + b[i + 3]
Pat(n, i) == ((n % 256) * 31 + i) % 256
MinI(a, b) == IF a < b THEN a ELSE b

(* The number in a Blob (serialisation id 7001: number, length, that many bytes of pattern) or -1: c are the known       *)
(* bytes of the content, of which there are len; fl: one of the bytes that are not known was changed                       *)
BlobOf(id, c, len, fl) ==
  IF id # <<0, 7001>> \/ len < 16 \/ Len(c) < 16 \/ N64(c, 9) # len - 16 THEN -1
  ELSE LET n == Low(c, 5) IN
       IF (\E i \in 17..Len(c) : c[i] # Pat(n, i - 17)) \/ (fl /\ Len(c) < len) THEN -1 ELSE n

(* The message in the bytes of d from position p on: [ok, m, next], m = [dst: bytes, src: bytes, n] *)
Nothing == [ok |-> FALSE, m |-> [dst |-> <<>>, src |-> <<>>, n |-> 0, id |-> <<>>], next |-> 0]
At(d, p) ==
  LET b == TLCEval(W!Drop(d.b, p)) left == d.len - p IN
  IF left < 9 \/ Len(b) < 9 \/ W!Take(b, 4) # W!Magic \/ b[9] # 2 \/ N32(b, 5) + 9 > left THEN Nothing
  ELSE LET fl == N32(b, 5)
           c  == TLCEval(SubSeq(b, 10, MinI(9 + fl, Len(b))))
           s  == TLCEval(W!DecPath(c))
       IN IF s.r # "ok" THEN Nothing ELSE
          LET c2 == TLCEval(W!Drop(c, s.used)) t == TLCEval(W!DecPath(c2)) IN
          IF t.r # "ok" THEN Nothing ELSE
          LET c3 == W!Drop(c2, t.used) IN
          IF Len(c3) < 8 THEN Nothing ELSE
          LET id == <<N32(c3, 1), N32(c3, 5)>> c4 == W!Drop(c3, 8)
          IN [ok |-> TRUE, next |-> p + 9 + fl,
              m  |-> [dst |-> t.q, src |-> W!Take(c, s.used), id |-> id,
                      n |-> BlobOf(id, c4, fl - s.used - t.used - 8, d.flip)]]

(* What must come of a datagram, and what may: a datagram larger than a buffer may be lost, and what follows the first   *)
(* frame, which no sender of this protocol adds, may be used or spoil the datagram                                         *)
RECURSIVE Chain(_, _)
Chain(d, p) == LET x == At(d, p) IN IF x.ok THEN <<x>> \o Chain(d, x.next) ELSE <<>>
Read(d, chunk) ==
  LET c == TLCEval(Chain(d, 0)) IN
  IF c # <<>> /\ c[1].next = d.len /\ d.len <= chunk THEN [must |-> <<c[1].m>>, may |-> <<>>]
  ELSE [must |-> <<>>, may |-> [i \in 1..Len(c) |-> c[i].m]]

Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Within(a, b) == \A i \in 1..Len(a) : Count(a, a[i]) <= Count(b, a[i])
RECURSIVE Minus(_, _)
Minus(a, b) == IF a = <<>> THEN <<>>
               ELSE IF Count(b, a[1]) = 0 THEN <<a[1]>> \o Minus(Tail(a), b)
               ELSE LET i == CHOOSE j \in 1..Len(b) : b[j] = a[1]
                    IN Minus(Tail(a), W!Take(b, i - 1) \o W!Drop(b, i))
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
Map(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]
Sel(s, Op(_)) == LET F(x) == IF Op(x) THEN <<x>> ELSE <<>> IN Cat(Map(s, F))

(* ------------------------------------------------------------ the system *)
(* names: the paths under which somebody is registered, [q, to], q the path of the component called `to`                  *)
Who(names, q) ==
  LET h == {i \in 1..Len(names) : names[i].q.k = q.k /\ names[i].q.id = q.id /\ names[i].q.segs = q.segs}
  IN IF h = {} THEN "dead" ELSE names[CHOOSE i \in h : TRUE].to
Deliver(names, m) == [to |-> Who(names, m.dst), src |-> m.src, n |-> m.n]

(* The datagram that carries the message n with z bytes from src to dst: its length and its first bytes *)
Body(src, dst, n, z) == src \o dst \o W!U64(7001) \o W!U64(n) \o W!U64(z)
OutLen(src, dst, n, z) == 9 + Len(src) + Len(dst) + 24 + z
OutHead(src, dst, n, z) ==
  LET h == W!Magic \o W!U32(Len(src) + Len(dst) + 24 + z) \o <<2>> \o Body(src, dst, n, z)
      k == MinI(HEADLEN, Len(h) + z)
  IN [i \in 1..k |-> IF i <= Len(h) THEN h[i] ELSE Pat(n, i - Len(h) - 1)]
Out(p, src, dst, n, z) == [p |-> p, len |-> OutLen(src, dst, n, z), b |-> OutHead(src, dst, n, z)]
=============================================================================
