----------------------------- MODULE RoutingMC -----------------------------
(* Design of the dispatchers' table: a tree of names with values in its       *)
(* nodes, pruned after removals, whose sub-trees are a routing path's         *)
(* members in an order that only a change of the sub-tree may change, and     *)
(* policies that select by a counter or by a hash modulo the size. Checked    *)
(* against Routing in every state reachable with the given names.             *)
EXTENDS Routing
CONSTANTS Comps, Pols, Deep, Kills
VARIABLES nodes, ctr, ord
mvars == <<rvars, nodes, ctr, ord>>
A == <<97>>  B == <<98>>
Names == {<<A>>, <<A, A>>, <<A, B>>} \cup (IF Deep THEN {<<A, A, B>>} ELSE {<<B>>})
NoVal == [k |-> "", c |-> 0, q |-> ""]
Up(p) == {SubSeq(p, 1, i) : i \in 0..Len(p)}
Least1(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Asc(S \ {x})
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Way(S, w) == IF w = 0 THEN Asc(S) ELSE Rev(Asc(S))

\* the tree
Insert(p, e) == [n \in DOMAIN nodes \cup Up(p) |-> IF n = p THEN e ELSE IF n \in DOMAIN nodes THEN nodes[n] ELSE NoVal]
Kept(f) == {n \in DOMAIN f : n = << >> \/ \E m \in DOMAIN f : Prefix(n, m) /\ f[m] # NoVal}
Prune(f) == [n \in Kept(f) |-> f[n]]
Retain(S) == Prune([n \in DOMAIN nodes |-> IF nodes[n].k = "ref" /\ nodes[n].c \in S THEN NoVal ELSE nodes[n]])
Sub(b) == {n \in DOMAIN nodes : Prefix(b, n) /\ nodes[n].k = "ref"}
\* looking up and routing: what one message does
Kind(b) == nodes[b].q
H(s, n) == s % n
Sel(b, i) == nodes[ord[b][i + 1]].c
Live(c) == c \notin dead
One(c) == [g |-> IF Live(c) THEN <<c>> ELSE << >>, d |-> 0]
Out(p, s) ==
  LET m == Marked(p)
      b == Base(p)
      DL == [g |-> << >>, d |-> 1]
      R(k) == LET n == Cardinality(Sub(b)) IN
              CASE k = "bc" -> [g |-> LET f == SelectSeq([i \in 1..n |-> nodes[ord[b][i]].c], Live) IN f, d |-> 0]
                [] k = "rr" -> One(Sel(b, ctr[b] % n))
                [] OTHER    -> One(Sel(b, H(s, n)))
  IN IF b \notin DOMAIN nodes THEN DL
     ELSE IF nodes[b] = NoVal THEN DL
     ELSE IF nodes[b].k = "ref" THEN IF m THEN DL ELSE One(nodes[b].c)
     ELSE IF Sub(b) = {} THEN DL
     ELSE IF m /\ p[Len(p)] = Broadcast /\ Kind(b) # "bc" THEN DL
     ELSE IF m /\ p[Len(p)] = Select /\ Kind(b) = "bc" THEN DL
     ELSE R(Kind(b))

\* whatever changes in the tree, the order of a sub-tree that did not change stays
Next1(b) == {n \in DOMAIN nodes' : Prefix(b, n) /\ nodes'[n].k = "ref"}
Reorder(p) == \E w \in {0, 1} : ord' = [b \in Names |-> IF Prefix(b, p) THEN Way(Next1(b), w) ELSE ord[b]]
Same1 == UNCHANGED <<nodes, ctr, ord>>

MInit == /\ RInit /\ nodes = [n \in {<< >>} |-> NoVal] /\ ctr = [b \in Names |-> 0]
         /\ ord = [b \in Names |-> << >>]
Register(p, e, u) ==
  LET held == p \in DOMAIN nodes /\ nodes[p] # NoVal
      r == IF held /\ ~u THEN "dup" ELSE "ok"
  IN /\ RegisterName(p, e, u, r)
     /\ IF r = "ok" THEN /\ nodes' = Insert(p, e) /\ Reorder(p)
                         /\ ctr' = IF e.k = "pol" THEN [ctr EXCEPT ![p] = 0] ELSE ctr
        ELSE Same1
SendPaths == Names \cup {Append(p, m) : p \in Names \cup {<< >>}, m \in {Broadcast, Select}} \cup {<<B, B>>}
Senders == {0, 1}
Send(p, s) ==
  LET o == Out(p, s)
      b == Base(p)
  IN /\ ToName(p, FALSE, FALSE, s, s, o.g, o.d)
     /\ ctr' = IF b \in Names /\ b \in DOMAIN nodes /\ Kind(b) = "rr" /\ Sub(b) # {} /\ ~(Marked(p) /\ p[Len(p)] = Broadcast)
               THEN [ctr EXCEPT ![b] = (@ + 1) % 12] ELSE ctr
     /\ UNCHANGED <<nodes, ord>>
Reap == /\ dead # {} /\ nodes' = Retain(dead) /\ Collect
        /\ \E w \in {0, 1} : ord' = [b \in Names |-> Way(Next1(b), w)]
        /\ UNCHANGED ctr
MNext == \/ \E p \in Names, c \in Comps \ dead, u \in BOOLEAN : Register(p, RefTo(c), u)
         \/ \E p \in Names, q \in Pols, u \in BOOLEAN : Register(p, PolOf(q), u)
         \/ \E p \in SendPaths, s \in Senders : Send(p, s)
         \/ Kills /\ \E c \in Comps \ dead : End(c) /\ Same1
         \/ Kills /\ Reap
MSpec == MInit /\ [][MNext]_mvars

Agree == /\ {n \in DOMAIN nodes : nodes[n] # NoVal} = DOMAIN reg
         /\ \A n \in DOMAIN reg : nodes[n] = reg[n]
Tidy  == nodes = Prune(nodes)
\* every message is treated as Routing says
Right == \A p \in SendPaths, s \in Senders : LET o == Out(p, s) IN ENABLED ToName(p, FALSE, FALSE, s, s, o.g, o.d)
=============================================================================
