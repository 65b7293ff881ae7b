------------------------------ MODULE Config -------------------------------
(* Configuration: documents are trees of values; the sources of a system are   *)
(* merged in the order in which they were given; readers look up paths and     *)
(* convert what they find.                                                     *)
(*                                                                             *)
(* Texts are sequences of character codes, natural numbers beyond TLC's are    *)
(* little endian sequences of bytes without leading zeros (Nat below).         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Set(q) == {q[i] : i \in DOMAIN q}
Last(q) == q[Len(q)]

(* ------------------------------------------------------------ numbers *)
RECURSIVE Trim(_), CarryF(_, _, _, _), DivF(_, _, _, _)
Trim(a) == IF a = <<>> \/ Last(a) # 0 THEN a ELSE Trim(SubSeq(a, 1, Len(a) - 1))
(* a * k + c for k, c < 2^22 *)
CarryF(a, i, k, c) == IF i > Len(a) THEN IF c = 0 THEN <<>> ELSE <<c % 256>> \o CarryF(a, i, k, c \div 256)
                      ELSE LET x == (a[i] * k) + c IN <<x % 256>> \o CarryF(a, i + 1, k, x \div 256)
MulAdd(a, k, c) == Trim(CarryF(a, 1, k, c))
Mul(a, k) == MulAdd(a, k, 0)
RECURSIVE MulAll(_, _), AddF(_, _, _, _)
MulAll(a, ks) == IF ks = <<>> THEN a ELSE MulAll(Mul(a, ks[1]), Tail(ks))
At(a, i) == IF i > Len(a) THEN 0 ELSE a[i]
AddF(a, b, i, c) == IF i > Len(a) /\ i > Len(b) THEN IF c = 0 THEN <<>> ELSE <<c>>
                    ELSE LET x == At(a, i) + At(b, i) + c IN <<x % 256>> \o AddF(a, b, i + 1, x \div 256)
Add(a, b) == AddF(a, b, 1, 0)
(* <<quotient, remainder>> by k < 2^22; digits from the most significant *)
DivF(a, i, k, r) == IF i = 0 THEN <<<<>>, r>>
                    ELSE LET x == (r * 256) + a[i]
                             z == DivF(a, i - 1, k, x % k)
                         IN <<Append(z[1], x \div k), z[2]>>
Div(a, k) == LET z == DivF(a, Len(a), k, 0) IN <<Trim(z[1]), z[2]>>
RECURSIVE DivTen(_, _)     \* <<quotient by 10^s, exact?>>
DivTen(a, s) == IF s = 0 THEN <<a, TRUE>>
                ELSE LET d == Div(a, 10)  z == DivTen(d[1], s - 1) IN <<z[1], z[2] /\ d[2] = 0>>
RECURSIVE LessF(_, _, _)
LessF(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessF(a, b, i - 1)
Less(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LessF(a, b, Len(a)))
FitsU64(a) == Len(a) <= 8
FitsI63(a) == Len(a) < 8 \/ (Len(a) = 8 /\ a[8] < 128)
RECURSIVE Small(_)         \* an ordinary number
Small(a) == IF a = <<>> THEN 0 ELSE a[1] + (256 * Small(Tail(a)))
RECURSIVE Big(_)
Big(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o Big(n \div 256)
RECURSIVE Decimal(_, _)
Decimal(ds, a) == IF ds = <<>> THEN a ELSE Decimal(Tail(ds), MulAdd(a, 10, ds[1] - 48))
RECURSIVE Digits(_)        \* the text of an ordinary number
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))

(* ------------------------------------------------------------ reals *)
(* IEEE numbers are big endian sequences of bytes *)
ByteBits(b) == [i \in 1..8 |-> (b \div (2 ^ (8 - i))) % 2]
RECURSIVE BitsOf(_)
BitsOf(bs) == IF bs = <<>> THEN <<>> ELSE ByteBits(bs[1]) \o BitsOf(Tail(bs))
RECURSIVE NumOf(_)
NumOf(bits) == IF bits = <<>> THEN 0 ELSE (2 * NumOf(SubSeq(bits, 1, Len(bits) - 1))) + Last(bits)
BytesOf(bits) == [i \in 1..(Len(bits) \div 8) |-> NumOf(SubSeq(bits, (8 * i) - 7, 8 * i))]
RECURSIVE Inc(_)
Inc(bits) == IF Last(bits) = 0 THEN [bits EXCEPT ![Len(bits)] = 1] ELSE Append(Inc(SubSeq(bits, 1, Len(bits) - 1)), 0)
Zeros(n) == [i \in 1..n |-> 0]
ExpBits(e, n) == [i \in 1..n |-> (e \div (2 ^ (n - i))) % 2]
(* a sign, a biased exponent and the bits after the leading one, rounded to m bits, ties to even *)
Round(neg, e, eb, frac, m) ==
  LET f == frac \o Zeros(m + 2)
      keep == ExpBits(e, eb) \o SubSeq(f, 1, m)
      up == f[m + 1] = 1 /\ (Last(keep) = 1 \/ \E i \in (m + 2)..Len(f) : f[i] = 1)
  IN <<IF neg THEN 1 ELSE 0>> \o (IF up THEN Inc(keep) ELSE keep)
Reverse(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
RECURSIVE Strip(_)
Strip(bits) == IF bits = <<>> \/ bits[1] = 1 THEN bits ELSE Strip(Tail(bits))
IntToF64(neg, m) == IF m = <<>> THEN Zeros(64)
                    ELSE LET b == Strip(BitsOf(Reverse(m))) IN Round(neg, Len(b) - 1 + 1023, 11, Tail(b), 52)
(* the nearest 32 bit float: "tiny" if it would be subnormal, "inf" if there is none *)
F64ToF32(bits) ==
  LET e == NumOf(SubSeq(bits, 2, 12))  frac == SubSeq(bits, 13, 64)  neg == bits[1] = 1  e32 == e - 1023 + 127
      F(k, b) == [k |-> k, b |-> b]
  IN CASE e = 2047 -> F("ok", <<bits[1]>> \o ExpBits(255, 8) \o SubSeq(frac, 1, 23))
       [] e32 < -30 -> F("ok", <<bits[1]>> \o Zeros(31))
       [] e32 <= 0 /\ e32 >= -30 -> F("tiny", <<>>)
       [] e32 >= 255 /\ e # 2047 -> F("inf", <<>>)
       [] OTHER -> LET r == Round(neg, e32, 8, frac, 23) IN IF SubSeq(r, 2, 9) = ExpBits(255, 8) THEN F("inf", <<>>) ELSE F("ok", r)

(* ------------------------------------------------------------ values *)
(* strings s, integers i (sign n, size m), reals r, booleans b, dates d, arrays a, tables t;            *)
(* sizes y and durations u that were set in code: their textual form is not specified, only what it means *)
Nil == [x \in {} |-> 0]
Table(f) == [t |-> "t", f |-> f]
Empty == Table(Nil)
RECURSIVE Merge(_, _)
Merge(a, b) == IF a.t = "t" /\ b.t = "t"
               THEN Table([k \in DOMAIN a.f \union DOMAIN b.f |->
                           IF k \notin DOMAIN b.f THEN a.f[k] ELSE IF k \notin DOMAIN a.f THEN b.f[k] ELSE Merge(a.f[k], b.f[k])])
               ELSE b
RECURSIVE Nest(_, _)
Nest(path, v) == IF path = <<>> THEN v ELSE Table([k \in {path[1]} |-> Nest(Tail(path), v)])
RECURSIVE Split(_, _, _)   \* a path at its dots
Split(p, i, cur) == IF i > Len(p) THEN <<cur>>
                    ELSE IF p[i] = 46 THEN <<cur>> \o Split(p, i + 1, <<>>) ELSE Split(p, i + 1, Append(cur, p[i]))
Path(p) == Split(p, 1, <<>>)
RECURSIVE Fold(_, _)
Fold(c, srcs) == IF srcs = <<>> THEN c ELSE Fold(Merge(c, srcs[1]), Tail(srcs))
TypeName(v) == CASE v.t \in {"s", "y", "u"} -> "string" [] v.t = "i" -> "integer" [] v.t = "r" -> "float" [] v.t = "b" -> "boolean"
                 [] v.t = "d" -> "datetime" [] v.t = "a" -> "array" [] v.t = "t" -> "table"

(* Where a path leads: [x |-> "ok", v], or the first step that fails. *)
RECURSIVE Walk(_, _)
Walk(v, path) == IF path = <<>> THEN [x |-> "ok", v |-> v]
                 ELSE IF v.t # "t" THEN [x |-> "key", key |-> path[1], ty |-> TypeName(v)]
                 ELSE IF path[1] \notin DOMAIN v.f THEN [x |-> "miss"]
                 ELSE Walk(v.f[path[1]], Tail(path))
(* Who wrote what a path shows: the last source in which the path, or the value in the way of it, occurs. *)
Says(src, path) == \E n \in 0..Len(path) : LET w == Walk(src, SubSeq(path, 1, n)) IN w.x = "ok" /\ (n = Len(path) \/ w.v.t # "t")

(* ------------------------------------------------------------ sizes *)
Digit(c) == c \in 48..57
Blank(c) == c \in {9, 10, 13, 32}
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
RECURSIVE SpanF(_, _, _)
Kind(c, cls) == CASE cls = "digit" -> Digit(c) [] cls = "blank" -> Blank(c) [] cls = "space" -> c = 32 [] cls = "letter" -> c \in 65..90 \/ c \in 97..122 \/ c = 181
SpanF(s, i, cls) == IF i > Len(s) \/ ~Kind(s[i], cls) THEN i ELSE SpanF(s, i + 1, cls)
TrimWs(s) == LET i == SpanF(s, 1, "blank")
                 r == Reverse(SubSeq(s, i, Len(s)))
             IN Reverse(SubSeq(r, SpanF(r, 1, "blank"), Len(r)))
LowerAll(s) == [i \in DOMAIN s |-> Lower(s[i])]
B1 == {<<>>, <<98>>}
Bits1 == {<<98, 105, 116>>, <<98, 105, 116, 115>>}
Prefixes == <<107, 109, 103, 116, 112, 101>>        \* k m g t p e
Bad == [x |-> "err"]
(* factors of the unit and whether it counts bits *)
SizeUnit(u0) ==
  LET u == LowerAll(u0) IN
  IF u \in B1 THEN [x |-> "ok", f |-> <<>>, bit |-> FALSE]
  ELSE IF u \in Bits1 THEN [x |-> "ok", f |-> <<>>, bit |-> TRUE]
  ELSE IF \E i \in DOMAIN Prefixes : Prefixes[i] = u[1]
  THEN LET k == CHOOSE i \in DOMAIN Prefixes : Prefixes[i] = u[1]
           bin == Len(u) > 1 /\ u[2] = 105
           rest == SubSeq(u, IF bin THEN 3 ELSE 2, Len(u))
           f == [i \in 1..k |-> IF bin THEN 1024 ELSE 1000]
       IN IF rest \in B1 THEN [x |-> "ok", f |-> f, bit |-> FALSE]
          ELSE IF rest \in Bits1 THEN [x |-> "ok", f |-> f, bit |-> TRUE]
          ELSE Bad
  ELSE Bad
(* the meaning of a text as a number of bytes (fractions of a byte are rounded up) *)
SizeOf(s0) ==
  LET s == TrimWs(s0)
      j == SpanF(s, 1, "digit")
      dot == j <= Len(s) /\ s[j] = 46
      k == IF dot THEN SpanF(s, j + 1, "digit") ELSE j
      sp == SpanF(s, k, "space")
      u == SizeUnit(SubSeq(s, sp, Len(s)))
  IN IF j = 1 \/ (dot /\ k = j + 1) \/ u.x = "err" THEN Bad
     ELSE LET frac == IF dot THEN SubSeq(s, j + 1, k - 1) ELSE <<>>
              n == MulAll(Decimal(SubSeq(s, 1, j - 1) \o frac, <<>>), u.f)
              z == DivTen(n, Len(frac))
              y == IF u.bit THEN Div(z[1], 8) ELSE <<z[1], 0>>
              whole == IF z[2] /\ y[2] = 0 THEN y[1] ELSE Add(y[1], <<1>>)
          IN IF FitsU64(whole) THEN [x |-> "ok", m |-> whole, exact |-> z[2] /\ y[2] = 0] ELSE Bad

(* ------------------------------------------------------------ durations *)
Txt(u) == CASE u = "nanos" -> <<110, 97, 110, 111, 115>> [] u = "nsec" -> <<110, 115, 101, 99>> [] u = "ns" -> <<110, 115>>
            [] u = "usec" -> <<117, 115, 101, 99>> [] u = "us" -> <<117, 115>> [] u = "mus" -> <<181, 115>>
            [] u = "millis" -> <<109, 105, 108, 108, 105, 115>> [] u = "msec" -> <<109, 115, 101, 99>> [] u = "ms" -> <<109, 115>>
            [] u = "seconds" -> <<115, 101, 99, 111, 110, 100, 115>> [] u = "second" -> <<115, 101, 99, 111, 110, 100>>
            [] u = "secs" -> <<115, 101, 99, 115>> [] u = "sec" -> <<115, 101, 99>> [] u = "s" -> <<115>>
            [] u = "minutes" -> <<109, 105, 110, 117, 116, 101, 115>> [] u = "minute" -> <<109, 105, 110, 117, 116, 101>>
            [] u = "min" -> <<109, 105, 110>> [] u = "mins" -> <<109, 105, 110, 115>> [] u = "m" -> <<109>>
            [] u = "hours" -> <<104, 111, 117, 114, 115>> [] u = "hour" -> <<104, 111, 117, 114>> [] u = "hr" -> <<104, 114>>
            [] u = "hrs" -> <<104, 114, 115>> [] u = "h" -> <<104>>
            [] u = "days" -> <<100, 97, 121, 115>> [] u = "day" -> <<100, 97, 121>> [] u = "d" -> <<100>>
            [] u = "weeks" -> <<119, 101, 101, 107, 115>> [] u = "week" -> <<119, 101, 101, 107>> [] u = "wk" -> <<119, 107>>
            [] u = "wks" -> <<119, 107, 115>> [] u = "w" -> <<119>>
            [] u = "months" -> <<109, 111, 110, 116, 104, 115>> [] u = "month" -> <<109, 111, 110, 116, 104>> [] u = "M" -> <<77>>
            [] u = "years" -> <<121, 101, 97, 114, 115>> [] u = "year" -> <<121, 101, 97, 114>> [] u = "yr" -> <<121, 114>>
            [] u = "yrs" -> <<121, 114, 115>> [] u = "y" -> <<121>>
(* unit families: names, factors to nanoseconds (sub) or to seconds, whether a fraction is of nanoseconds *)
Families == <<
  [u |-> {"nanos", "nsec", "ns"}, f |-> <<>>, sub |-> TRUE, frac |-> "no"],
  [u |-> {"usec", "us", "mus"}, f |-> <<1000>>, sub |-> TRUE, frac |-> "sub"],
  [u |-> {"millis", "msec", "ms"}, f |-> <<1000, 1000>>, sub |-> TRUE, frac |-> "sub"],
  [u |-> {"seconds", "second", "secs", "sec", "s"}, f |-> <<>>, sub |-> FALSE, frac |-> "sub"],
  [u |-> {"minutes", "minute", "min", "mins", "m"}, f |-> <<60>>, sub |-> FALSE, frac |-> "sub"],
  [u |-> {"hours", "hour", "hr", "hrs", "h"}, f |-> <<3600>>, sub |-> FALSE, frac |-> "sec"],
  [u |-> {"days", "day", "d"}, f |-> <<86400>>, sub |-> FALSE, frac |-> "sec"],
  [u |-> {"weeks", "week", "wk", "wks", "w"}, f |-> <<604800>>, sub |-> FALSE, frac |-> "sec"],
  [u |-> {"months", "month", "M"}, f |-> <<2630016>>, sub |-> FALSE, frac |-> "sec"],
  [u |-> {"years", "year", "yr", "yrs", "y"}, f |-> <<5400, 5844>>, sub |-> FALSE, frac |-> "sec"]>>
UnitTexts == [i \in DOMAIN Families |-> {Txt(u) : u \in Families[i].u}]
RECURSIVE DivAll(_, _)     \* seconds and nanoseconds of a number of nanoseconds
DivAll(n, i) == LET d == Div(n, 1000)  e == Div(d[1], 1000)  g == Div(e[1], 1000)
                IN [s |-> g[1], n |-> Add(Big(d[2]), Add(Mul(Big(e[2]), 1000), MulAll(Big(g[2]), <<1000, 1000>>)))]
Nanos(n) == DivAll(n, 0)
PlusDur(a, b) == LET n == Nanos(Add(a.n, b.n)) IN [s |-> Add(Add(a.s, b.s), n.s), n |-> n.n]
NoDur == [s |-> <<>>, n |-> <<>>]
(* n.frac of a unit *)
Item(n, frac, hasfrac, fam) ==
  LET whole == MulAll(n, fam.f)
      num == Decimal(frac, <<>>)
      up == MulAll(num, IF fam.frac = "sub" /\ ~fam.sub THEN fam.f \o <<1000, 1000, 1000>> ELSE fam.f)
      z == DivTen(up, Len(frac))
      base == IF fam.sub THEN Nanos(whole) ELSE [s |-> whole, n |-> <<>>]
  IN IF ~FitsU64(n) \/ ~FitsU64(whole) \/ (hasfrac /\ (fam.frac = "no" \/ ~FitsU64(up) \/ ~z[2])) THEN Bad
     ELSE [x |-> "ok", d |-> IF ~hasfrac THEN base ELSE PlusDur(base, IF fam.frac = "sub" THEN Nanos(z[1]) ELSE [s |-> z[1], n |-> <<>>])]
RECURSIVE DurF(_, _, _)
DurF(s, i0, acc) ==
  LET i == SpanF(s, i0, "blank") IN
  IF i > Len(s) THEN IF i0 = 1 THEN Bad ELSE [x |-> "ok", d |-> acc]
  ELSE LET j == SpanF(s, i, "digit")
           dot == j <= Len(s) /\ s[j] = 46
           k == IF dot THEN SpanF(s, j + 1, "digit") ELSE j
           a == SpanF(s, k, "blank")
           b == SpanF(s, a, "letter")
           u == SubSeq(s, a, b - 1)
           F == {q \in DOMAIN Families : u \in UnitTexts[q]}
       IN IF j = i \/ (dot /\ k = j + 1) \/ F = {} THEN Bad
          ELSE LET it == Item(Decimal(SubSeq(s, i, j - 1), <<>>), SubSeq(s, j + 1, k - 1), dot, Families[CHOOSE q \in F : TRUE])
               IN IF it.x = "err" THEN Bad
                  ELSE LET sum == PlusDur(acc, it.d) IN IF FitsU64(sum.s) THEN DurF(s, b, sum) ELSE Bad
DurOf(s) == IF s = <<48>> THEN [x |-> "ok", d |-> NoDur] ELSE DurF(s, 1, NoDur)

(* ------------------------------------------------------------ conversion *)
(* Is r (a value, or the failure "conv") what reading v as type ty may give? *)
Conv0(ty, v, ok, out) ==
  CASE ty = "s" -> IF v.t \in {"y", "u"} THEN ok /\ out.t = "s" ELSE IF v.t = "s" THEN ok /\ out = v ELSE ~ok
    [] ty = "i" -> IF v.t = "i" THEN ok /\ out = v ELSE ~ok
    [] ty = "n" -> IF v.t = "i" /\ ~v.n THEN ok /\ out = v ELSE ~ok
    [] ty = "r" -> IF v.t = "r" THEN ok /\ out = v
                   ELSE IF v.t = "i" THEN ok /\ out.t = "r" /\ BitsOf(out.r) = IntToF64(v.n, v.m)
                   ELSE ~ok
    [] ty = "f" -> IF v.t \in {"r", "i"}
                   THEN LET w == F64ToF32(IF v.t = "r" THEN BitsOf(v.r) ELSE IntToF64(v.n, v.m))
                        IN CASE w.k = "tiny" -> TRUE [] w.k = "inf" -> ~ok [] w.k = "ok" -> ok /\ out.t = "f" /\ BitsOf(out.f) = w.b
                   ELSE ~ok
    [] ty = "b" -> IF v.t = "b" THEN ok /\ out = v ELSE ~ok
    [] ty = "d" -> IF v.t = "d" THEN ok /\ out = v ELSE ~ok
    [] ty = "y" -> CASE v.t = "y" -> ok /\ out = [t |-> "i", n |-> FALSE, m |-> v.m]
                     [] v.t = "i" -> IF v.n THEN ~ok ELSE ok /\ out = v
                     [] v.t = "u" -> TRUE      \* the form of the text a duration is written as is left open
                     [] v.t = "s" -> LET z == SizeOf(v.s) IN IF z.x = "ok" THEN (IF ok THEN out = [t |-> "i", n |-> FALSE, m |-> z.m] ELSE ~z.exact) ELSE ~ok
                     [] OTHER -> ~ok
    [] ty = "u" -> CASE v.t = "u" -> ok /\ out = v
                     [] v.t = "y" -> TRUE
                     [] v.t = "s" -> LET z == DurOf(v.s) IN IF z.x = "ok" THEN ok /\ out = [t |-> "u", s |-> z.d.s, n |-> z.d.n] ELSE ~ok
                     [] OTHER -> ~ok
RECURSIVE CanConv(_, _), Conv(_, _, _, _)
(* whether an element has to fail *)
CanConv(ty, v) == IF ty[1] = "a" THEN v.t = "a" /\ \A i \in DOMAIN v.a : CanConv(Tail(ty), v.a[i])
                  ELSE ~Conv0(ty[1], v, FALSE, v)
Conv(ty, v, ok, out) ==
  IF ty[1] # "a" THEN Conv0(ty[1], v, ok, out)
  ELSE IF ok THEN /\ v.t = "a" /\ out.t = "a" /\ Len(v.a) = Len(out.a)
                  /\ \A i \in DOMAIN v.a : Conv(Tail(ty), v.a[i], TRUE, out.a[i])
  ELSE ~CanConv(ty, v)

(* ------------------------------------------------------------ entries *)
Str(s) == [t |-> "s", s |-> s]
Whole(n) == [t |-> "i", n |-> n < 0, m |-> Big(IF n < 0 THEN 0 - n ELSE n)]
None == [t |-> "none"]
(* n eighths as a real *)
F64Of8(n) == CASE n = 1 -> BitsOf(<<63, 192, 0, 0, 0, 0, 0, 0>>) [] n = 2 -> BitsOf(<<63, 208, 0, 0, 0, 0, 0, 0>>) [] n = 3 -> BitsOf(<<63, 216, 0, 0, 0, 0, 0, 0>>)
               [] n = 4 -> BitsOf(<<63, 224, 0, 0, 0, 0, 0, 0>>) [] n = 5 -> BitsOf(<<63, 228, 0, 0, 0, 0, 0, 0>>) [] n = 6 -> BitsOf(<<63, 232, 0, 0, 0, 0, 0, 0>>)
               [] n = 7 -> BitsOf(<<63, 236, 0, 0, 0, 0, 0, 0>>)
(* keys, types, defaults and ranges of the entries which the harness declares, and of the runtime's own *)
Entries == <<
  [key |-> <<107, 118, 46, 115, 116, 114>>, ty |-> <<"s">>, def |-> Str(<<100, 102, 108, 116>>), val |-> "any"],                \* kv.str
  [key |-> <<107, 118, 46, 105, 110, 116>>, ty |-> <<"i">>, def |-> Whole(-7), val |-> "pm100"],                                 \* kv.int
  [key |-> <<107, 118, 46, 100, 101, 101, 112, 46, 101, 114, 46, 114, 101, 97, 108>>, ty |-> <<"r">>,
   def |-> [t |-> "r", r |-> <<63, 248, 0, 0, 0, 0, 0, 0>>], val |-> "any"],                                                   \* kv.deep.er.real
  [key |-> <<107, 118, 46, 98, 111, 111, 108>>, ty |-> <<"b">>, def |-> [t |-> "b", b |-> TRUE], val |-> "any"],               \* kv.bool
  [key |-> <<107, 118, 46, 98, 121, 116, 101, 115>>, ty |-> <<"y">>, def |-> Whole(1024), val |-> "min16"],                      \* kv.bytes
  [key |-> <<107, 118, 46, 100, 117, 114>>, ty |-> <<"u">>, def |-> [t |-> "u", s |-> <<3>>, n |-> <<>>], val |-> "any"],      \* kv.dur
  [key |-> <<107, 118, 46, 117, 115>>, ty |-> <<"n">>, def |-> Whole(3), val |-> "pos"],                                         \* kv.us
  [key |-> <<107, 118, 46, 102, 51, 50>>, ty |-> <<"f">>, def |-> [t |-> "f", f |-> <<63, 0, 0, 0>>], val |-> "any"],          \* kv.f32
  [key |-> <<107, 118, 46, 105, 110, 116, 115>>, ty |-> <<"a", "i">>, def |-> None, val |-> "any"],                            \* kv.ints
  [key |-> <<116, 111, 112>>, ty |-> <<"s">>, def |-> None, val |-> "any"],                                                    \* top
  [key |-> <<107, 118, 46, 100, 101, 101, 112, 46, 115, 116, 114, 115>>, ty |-> <<"a", "s">>,
   def |-> [t |-> "a", a |-> <<Str(<<120>>)>>], val |-> "any"],                                                                \* kv.deep.strs
  [key |-> <<107, 118, 46, 100, 117, 114, 115>>, ty |-> <<"a", "u">>, def |-> None, val |-> "any"],                            \* kv.durs
  [key |-> <<111, 116, 104, 101, 114, 46, 117, 115, 122>>, ty |-> <<"a", "a", "n">>, def |-> None, val |-> "any"],             \* other.usz
  [key |-> <<107, 111, 109, 112, 97, 99, 116, 46, 114, 117, 110, 116, 105, 109, 101, 46, 108, 97, 98, 101, 108>>, ty |-> <<"s">>,
   def |-> [t |-> "label"], val |-> "any"],
  [key |-> <<107, 111, 109, 112, 97, 99, 116, 46, 114, 117, 110, 116, 105, 109, 101, 46, 116, 104, 114, 111, 117, 103, 104, 112, 117, 116>>,
   ty |-> <<"n">>, def |-> Whole(50), val |-> "pos"],
  [key |-> <<107, 111, 109, 112, 97, 99, 116, 46, 114, 117, 110, 116, 105, 109, 101, 46, 109, 101, 115, 115, 97, 103, 101, 45, 112, 114, 105, 111, 114, 105, 116, 121>>,
   ty |-> <<"f">>, def |-> [t |-> "f", f |-> <<63, 0, 0, 0>>], val |-> "unit"],
  [key |-> <<107, 111, 109, 112, 97, 99, 116, 46, 114, 117, 110, 116, 105, 109, 101, 46, 116, 104, 114, 101, 97, 100, 115>>, ty |-> <<"n">>,
   def |-> [t |-> "cores"], val |-> "pos"],
  [key |-> <<107, 111, 109, 112, 97, 99, 116, 46, 114, 117, 110, 116, 105, 109, 101, 46, 115, 99, 104, 101, 100, 117, 108, 101, 114>>, ty |-> <<"s">>,
   def |-> Str(<<97, 117, 116, 111>>), val |-> "sched"]>>
Schedulers == {<<97, 117, 116, 111>>, <<115, 109, 97, 108, 108>>, <<108, 97, 114, 103, 101>>, <<100, 121, 110, 97, 109, 105, 99>>,
               <<99, 117, 115, 116, 111, 109>>}
(* is a (converted) value in the entry's range? *)
Valid(en, o) ==
  CASE en.val = "any" -> TRUE
    [] en.val = "pm100" -> Less(o.m, <<101>>)
    [] en.val = "min16" -> ~Less(o.m, <<16>>)
    [] en.val = "pos" -> o.m # <<>>
    [] en.val = "unit" -> o.f[1] < 128 /\ (\E i \in 1..4 : o.f[i] # 0) /\ NumOf(SubSeq(BitsOf(o.f), 2, 9)) < 127
    [] en.val = "sched" -> o.s \in Schedulers
(* What an entry's reader may return: r is [x |-> "ok", v] or an error [x |-> "err", e |-> kind, path, ...].        *)
DefOk(en, o) == CASE en.def.t = "label" -> o.t = "s" [] en.def.t = "cores" -> o.t = "i" /\ ~o.n /\ o.m # <<>> [] OTHER -> o = en.def
ReadOk(conf, en, dflt, r) ==
  LET w == Walk(conf, Path(en.key)) IN
  CASE w.x = "ok" -> IF r.x = "ok" THEN Conv(en.ty, w.v, TRUE, r.v) /\ Valid(en, r.v)
                     ELSE /\ r.path = en.key
                          /\ CASE r.e = "conv" -> Conv(en.ty, w.v, FALSE, w.v)
                               [] r.e = "inval" -> Conv(en.ty, w.v, TRUE, r.v) /\ ~Valid(en, r.v)
                               [] OTHER -> FALSE
    [] w.x = "miss" /\ dflt /\ en.def.t # "none" -> r.x = "ok" /\ DefOk(en, r.v)
    [] w.x = "miss" -> r.x = "err" /\ r.e = "miss" /\ r.path = en.key
    [] w.x = "key" -> r.x = "err" /\ r.e = "key" /\ r.path = en.key /\ r.key = w.key /\ r.ty = w.ty
=============================================================================
