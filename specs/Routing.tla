------------------------------ MODULE Routing ------------------------------
(* Registered names, unique registrations and routing policies of one system, *)
(* and what has to happen to a message sent to a path. A path is a sequence   *)
(* of segments, a segment a sequence of character codes.                      *)
(*                                                                            *)
(*  reg   what is registered under a name: a component or a policy            *)
(*  uu    components registered under their unique path                       *)
(*  dead  components that have ended; their registrations may be collected    *)
(*  win   per routing path: the latest round-robin selections                 *)
(*  pin   per routing path and hashed field: the member selected              *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES reg, uu, dead, win, pin
rvars == <<reg, uu, dead, win, pin>>

STAR  == 42   QUEST == 63   SLASH == 47   HASH == 35
Broadcast == <<STAR>>
Select    == <<QUEST>>
Has(s, c) == \E i \in 1..Len(s) : s[i] = c
\* the names something can be registered under
InsertOk(p) == \A i \in 1..Len(p) : Len(p[i]) > 0 /\ \A c \in {STAR, QUEST, SLASH, HASH} : ~Has(p[i], c)
Prefix(b, q) == Len(b) <= Len(q) /\ SubSeq(q, 1, Len(b)) = b
Count(g, c)  == Cardinality({i \in 1..Len(g) : g[i] = c})
Ran(g)       == {g[i] : i \in 1..Len(g)}
Has1(f, x)   == x \in DOMAIN f
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Drop1(f, S)  == [y \in DOMAIN f \ S |-> f[y]]

RefTo(c)  == [k |-> "ref", c |-> c, q |-> ""]
PolOf(q)  == [k |-> "pol", c |-> 0, q |-> q]
IsRef(e)  == e.k = "ref"
Stale(p)  == Has1(reg, p) /\ IsRef(reg[p]) /\ reg[p].c \in dead
Living    == Drop1(reg, {p \in DOMAIN reg : IsRef(reg[p]) /\ reg[p].c \in dead})

RInit == /\ reg = << >> /\ uu = {} /\ dead = {} /\ win = << >> /\ pin = << >>

\* a change at p starts the routing paths above it anew
Forget(p) == /\ win' = Drop1(win, {b \in DOMAIN win : Prefix(b, p)})
             /\ pin' = Drop1(pin, {x \in DOMAIN pin : Prefix(x[1], p)})
Put1(p, e) == /\ reg' = Put(reg, p, e)
              /\ Forget(p)
              /\ UNCHANGED <<uu, dead>>
Same == UNCHANGED rvars

(* ------------------------------------------------------------ registering *)
\* u: an update was asked for; r: the answer
RegisterName(p, e, u, r) ==
  CASE ~InsertOk(p)            -> r = "inv" /\ Same
    [] ~Has1(reg, p) \/ u      -> r = "ok" /\ Put1(p, e)
    [] Stale(p)                -> \/ r = "dup" /\ Same
                                  \/ r = "ok" /\ Put1(p, e)
    [] OTHER                   -> r = "dup" /\ Same
RegisterUnique(c, r) ==
  IF c \in uu THEN r = "dup" /\ Same
  ELSE r = "ok" /\ uu' = uu \cup {c} /\ UNCHANGED <<reg, dead, win, pin>>
\* several registrations of one name at the same time: one of them wins, or none if the name is taken
Race(p, cs, rs) ==
  LET won == {i \in 1..Len(cs) : rs[i] = "ok"}
      lost == \A i \in 1..Len(cs) : i \in won \/ rs[i] = "dup"
  IN /\ lost
     /\ IF Has1(reg, p) /\ ~Stale(p) THEN won = {} /\ Same
        ELSE \/ \E i \in won : won = {i} /\ Put1(p, RefTo(cs[i]))
             \/ Stale(p) /\ won = {} /\ Same
End(c) == dead' = dead \cup {c} /\ UNCHANGED <<reg, uu, win, pin>>
\* the registrations of ended components are collected
Collect == /\ reg' = Living /\ uu' = uu \ dead
           /\ win' = << >> /\ pin' = << >> /\ UNCHANGED dead

(* ---------------------------------------------------------------- routing *)
Marked(p) == Len(p) > 0 /\ p[Len(p)] \in {Broadcast, Select}
Base(p)   == IF Marked(p) THEN SubSeq(p, 1, Len(p) - 1) ELSE p
\* what a message to p means, given registrations v; imp: routing without a policy is allowed
Meaning(v, p, imp) ==
  LET b == Base(p)
      m == IF Marked(p) THEN p[Len(p)] ELSE <<>>
  IN IF Has1(v, b) THEN
       IF IsRef(v[b]) THEN IF Marked(p) THEN "none" ELSE "one"
       ELSE CASE v[b].q = "bc"   -> IF m = Select THEN "none" ELSE "all"
              [] v[b].q = "both" -> IF m = Select THEN "rr" ELSE "all"
              [] OTHER           -> IF m = Broadcast THEN "none" ELSE v[b].q
     ELSE IF Marked(p) /\ imp THEN IF m = Broadcast THEN "all" ELSE "hash"
     ELSE "none"
\* the registrations a routing path stands for
Members(v, b) == {q \in DOMAIN v : Prefix(b, q) /\ IsRef(v[q])}
Times(v, M, c) == Cardinality({q \in M : v[q].c = c})

DeadLetter(g, d) == g = << >> /\ d = 1
\* nothing is known of a message to a component that has ended, but nobody else gets it
Lost(g, d) == g = << >> /\ d \in {0, 1}

\* any n consecutive selections of a round hit every one of the n members
RoundOk(v, M, w) == \A c \in Ran(w) : Count(w, c) <= Times(v, M, c)
LastN(w, n) == IF Len(w) <= n THEN w ELSE SubSeq(w, Len(w) - n + 1, Len(w))

ToUnique(c, g, d) ==
  /\ IF c \in uu THEN IF c \in dead THEN Lost(g, d) ELSE g = <<c>> /\ d = 0
     ELSE DeadLetter(g, d)
  /\ Same

\* key: what the hash of a selection is taken over
ToNameIn(v, p, imp, skey, rkey, g, d) ==
  LET b == Base(p)
      k == Meaning(v, p, imp)
      M == Members(v, b)
      L == {q \in M : v[q].c \notin dead}
      key == <<b, IF k = "fh" THEN rkey ELSE skey>>
  IN CASE k = "none" -> DeadLetter(g, d) /\ Same
       [] k = "one"  -> /\ IF v[b].c \in dead THEN Lost(g, d) ELSE g = <<v[b].c>> /\ d = 0
                        /\ Same
       [] M = {}     -> DeadLetter(g, d) /\ Same
       [] k = "all"  -> /\ \A c \in Ran(g) \cup {v[q].c : q \in L} : Count(g, c) = Times(v, L, c)
                        /\ IF L = {} THEN d \in {0, 1} ELSE d = 0
                        /\ Same
       [] L # M      -> /\ \/ Len(g) = 1 /\ d = 0 /\ \E q \in L : g[1] = v[q].c
                           \/ g = << >> /\ d = 0
                           \/ L = {} /\ DeadLetter(g, d)
                        /\ win' = Drop1(win, {b})
                        /\ UNCHANGED <<reg, uu, dead, pin>>
       [] OTHER ->
            /\ Len(g) = 1 /\ d = 0
            /\ \E q \in M : g[1] = v[q].c
            /\ IF k = "rr" THEN
                 LET w == LastN(Append(IF Has1(win, b) THEN win[b] ELSE << >>, g[1]), Cardinality(M))
                 IN RoundOk(v, M, w) /\ win' = Put(win, b, w) /\ UNCHANGED <<reg, uu, dead, pin>>
               ELSE /\ Has1(pin, key) => pin[key] = g[1]
                    /\ pin' = Put(pin, key, g[1])
                    /\ UNCHANGED <<reg, uu, dead, win>>
\* the registrations of ended components may have been collected or not
ToName(p, imp, exact, skey, rkey, g, d) ==
  IF Len(p) = 0 THEN DeadLetter(g, d) /\ Same
  ELSE \/ ToNameIn(reg, p, imp, skey, rkey, g, d)
       \/ ~exact /\ Living # reg /\ ToNameIn(Living, p, imp, skey, rkey, g, d)
=============================================================================
