------------------------------- MODULE WireMC -------------------------------
(* Design model of Wire: the forms of all paths, values and bytes over a small alphabet, and the life of a few messages. *)
EXTENDS Wire, TLC
CONSTANTS NM, Mode  \* "paths" | "bytes" | "values" | "msgs"
VARIABLES x, truth
mvars == <<wvars, x, truth>>

Alpha == {97, 98, SLASH, HASH, STAR, QUEST}
Names == UNION {[1..n -> Alpha] : n \in 0..2}
Ip4 == {<<1, 0, 0, 2>>, <<10, 0, 0, 1>>}
Ip6 == {[i \in 1..16 |-> IF i = 16 THEN 1 ELSE 0]}
Uid(n) == [i \in 1..16 |-> (n * i) % 256]
Segs == {<<>>} \cup {<<a>> : a \in Names} \cup {<<a, b>> : a \in Names, b \in Names}
Cand == IF Mode # "paths" THEN {} ELSE
        [t : 0..2, ip : Ip4 \cup Ip6, port : {0, 258}, k : {"n"}, id : {<<>>}, segs : Segs]
        \cup [t : 0..2, ip : Ip4 \cup Ip6, port : {0, 258}, k : {"u"}, id : {Uid(1), Uid(7)}, segs : {<<>>}]
Sk(p) == [ok |-> TRUE, ip |-> p.ip, port |-> p.port]

PathOk(p) == IsPath(p) =>
  /\ \A s \in {<<>>, <<0>>, <<255, 1>>} : DecPath(EncPath(p) \o s) = [r |-> "ok", q |-> p, used |-> Len(EncPath(p))]
  /\ Len(p.ip) = 4 =>
       /\ RefParse(Render(p), "any", Sk(p), p.id) = [r |-> "ok", q |-> p]
       /\ RefParse(Render(p), IF p.k = "u" THEN "unique" ELSE "named", Sk(p), p.id) = [r |-> "ok", q |-> p]
       /\ RefParse(Render(p), IF p.k = "u" THEN "named" ELSE "unique", Sk(p), p.id).r = "err"
\* what cannot be a path is not what its text or its bytes are read as
NoPathOk(p) == ~IsPath(p) =>
  /\ LET d == DecPath(EncPath(p)) IN d.r = "ok" => d.q # p /\ IsPath(d.q)
  /\ Len(p.ip) = 4 => LET d == RefParse(Render(p), "any", Sk(p), p.id) IN d.r = "ok" => d.q # p /\ IsPath(d.q)
\* every prefix of an encoding is no encoding
PrefixOk(p) == IsPath(p) => \A n \in 0..(Len(EncPath(p)) - 1) : DecPath(Take(EncPath(p), n)).r = "err"

\* arbitrary bytes: what decodes is a path, and these bytes are its encoding
Hdr == {0, 1, 2, 3, 32, 33, 64, 96, 128, 129, 160, 193}
ByteCand == IF Mode # "bytes" THEN {} ELSE {<<h>> \o b : h \in Hdr, b \in UNION {[1..n -> {0, 1, 97}] : n \in 0..6}}
            \cup {<<h, 1, 0, 0, 2, 0, 80>> \o b : h \in Hdr, b \in UNION {[1..n -> {0, 2, 47, 97, 195}] : n \in 0..5}}
BytesOk(b) == LET d == DecPath(b) IN d.r = "ok" => IsPath(d.q) /\ EncPath(d.q) = Take(b, d.used)

\* values of every shape up to two levels
T0 == {<<0>>, <<1, 0>>, <<1, 1>>, <<2, 255>>, <<3, 0, 0, 0, 0, 0, 0, 1, 2>>, <<4, 0>>, <<4, 2, 195, 164>>, <<7, 0>>, <<10, 0, 0, 0, 97>>, <<13, 1, 2>>,
       <<12>> \o [i \in 1..33 |-> i], <<5, 0>>, <<6, 0>>}
Lift(S) == {<<5, 1>> \o a : a \in S} \cup {<<5, 2>> \o a \o b : a, b \in S} \cup {<<6, 2, 1>> \o a \o <<2>> \o b : a, b \in S}
           \cup {<<7, 1>> \o a : a \in S} \cup {<<8, 1, 2>> \o a : a \in S} \cup {<<9, 0, 0, 1, 0>> \o a : a \in S} \cup {<<11, 9, 0, 0, 0>> \o a : a \in S}
T1 == T0 \cup Lift(T0)
T2 == T1 \cup Lift({<<0>>, <<4, 1, 97>>, <<5, 1, 1, 1>>, <<7, 1, 2, 3>>, <<6, 1, 9, 0>>})
ValCand == {[ty |-> "serde", b |-> t] : t \in T2} \cup {[ty |-> "str", b |-> s] : s \in {<<>>, <<97>>, <<226, 130, 172>>}}
           \cup {[ty |-> "u64", b |-> U64(n)] : n \in {0, 1, 65536}} \cup {[ty |-> "unit", b |-> <<>>]}
           \cup {[ty |-> ty, b |-> s] : ty \in {"rawa", "rawb"}, s \in {<<>>, <<0>>, <<1, 2, 3>>}}
ValOk(v) == LET e == EncV(v) d == DecV(v.ty, e) IN
            /\ d.ok /\ ~d.free /\ d.v = v.b /\ d.i = Len(e) + 1
            \* with something missing nothing is read
            /\ v.ty \in {"serde", "str", "u64"} => \A n \in 0..(Len(e) - 1) : ~DecV(v.ty, Take(e, n)).ok

(* the life of messages *)
Own == [NoPath EXCEPT !.k = "u", !.id = Uid(3), !.t = 1]
D1  == [NoPath EXCEPT !.segs = <<<<97>>>>]
D2  == [NoPath EXCEPT !.t = 1, !.segs = <<<<98>>>>]
Fr  == [NoPath EXCEPT !.t = 2, !.k = "u", !.id = Uid(9)]
Vals == {[ty |-> "str", b |-> <<97>>], [ty |-> "u64", b |-> U64(5)], [ty |-> "bad", b |-> <<1>>]}
M == 1..NM
Fresh == {m \in M : m \notin DOMAIN truth}
New(m) == m = Least(Fresh)
Know(m, s, v) == truth' = Put(truth, m, [s |-> s, v |-> v])

MNext ==
  \/ \E v \in Vals, r \in {"ok", "err"} : pres = Empty /\ Preserialise(1, v, r) /\ UNCHANGED <<x, truth>>
  \/ \E m \in Fresh, way \in {"tell", "tser", "tpre"}, d \in {D1, D2}, hf \in BOOLEAN, v \in Vals, r \in {"ok", "err"} :
       /\ New(m)
       /\ SendMsg(m, way, d, hf, Fr, v, 0, 1, r)
       /\ Know(m, IF hf THEN Fr ELSE [Own EXCEPT !.t = d.t], IF way = "tpre" THEN pres[1] ELSE v) /\ UNCHANGED x
  \/ \E m \in Fresh, src \in DOMAIN msgs, d \in {D1, D2}, hf \in BOOLEAN, r \in {"ok", "err"} :
       /\ New(m)
       /\ SendMsg(m, "fwd", d, hf, Fr, [ty |-> "unit", b |-> <<>>], src, 0, r)
       /\ Know(m, IF hf THEN Fr ELSE truth[src].s, truth[src].v) /\ UNCHANGED x
  \/ \E m \in DOMAIN pend, th \in {"local", "wire"}, r \in {"ok", "err"}, ss \in {0, 5} : Arrive(m, th, r, ss) /\ UNCHANGED <<x, truth>>
  \/ \E m \in DOMAIN msgs, n \in Fresh, r \in {"ok", "err"} : New(n) /\ CloneMsg(m, n, r) /\ truth' = Put(truth, n, truth[m]) /\ UNCHANGED x
  \/ \E m \in DOMAIN msgs, ty \in {"str", "u64"}, v \in Vals, r \in {"ok", "nomatch"} :
       /\ ReadMsg(m, ty, r, v) /\ UNCHANGED <<x, truth>>
       /\ Assert(r = "ok" => v = truth[m].v /\ v.ty = ty, "read something else")
  \/ \E m \in DOMAIN msgs : (DropMsg(m) /\ UNCHANGED <<x, truth>>)
NeverBad == \A m \in DOMAIN msgs : msgs[m].v.ty = "bad" => msgs[m].boxed
Truthful == Mode = "msgs" => /\ \A m \in DOMAIN msgs : m \in DOMAIN truth /\ msgs[m].v = truth[m].v /\ msgs[m].s = truth[m].s
                             /\ \A m \in DOMAIN pend : m \in DOMAIN truth /\ pend[m].v = truth[m].v /\ pend[m].s = truth[m].s
\* the wire carries exactly this
WireTruth == Mode = "msgs" => \A m \in DOMAIN pend : pend[m].v.ty # "bad" =>
               LET f == Frame(pend[m].s, pend[m].d, pend[m].v) d == DecMsg(Drop(f, 9)) IN
               d.r = "ok" /\ d.s = truth[m].s /\ d.d = pend[m].d /\ d.id = <<0, Id(truth[m].v.ty)>>
               /\ DecV(truth[m].v.ty, d.rest).ok /\ DecV(truth[m].v.ty, d.rest).v = truth[m].v.b

Domain == CASE Mode = "paths" -> Cand [] Mode = "bytes" -> ByteCand [] Mode = "values" -> ValCand [] OTHER -> {0}
Init == x \in Domain /\ truth = Empty /\ WInit(Own, TRUE)
Next == Mode = "msgs" /\ MNext
Spec == Init /\ [][Next]_mvars
Forms == CASE Mode = "paths" -> PathOk(x) /\ NoPathOk(x) /\ PrefixOk(x)
           [] Mode = "bytes" -> BytesOk(x)
           [] Mode = "values" -> ValOk(x)
           [] OTHER -> TRUE
\* no two paths share a text or an encoding
ASSUME Mode = "paths" =>
   LET P == {p \in Cand : IsPath(p)} P4 == {p \in P : Len(p.ip) = 4} IN
   /\ Cardinality({EncPath(p) : p \in P}) = Cardinality(P)
   /\ Cardinality({Render(p) : p \in P4}) = Cardinality(P4)
=============================================================================
