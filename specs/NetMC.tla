------------------------------- MODULE NetMC -------------------------------
(* The design: every history of a few steps of the specification Net, with    *)
(* what an observer recorded, satisfies what users rely on.                   *)
EXTENDS Net, TLC
CONSTANTS IPs,     \* the addresses of the peers
          Lst,     \* whether they listen at first
          Retries, SoftL, HardL,
          Kinds,   \* the steps that are taken
          Ranges,  \* what block and allow commands cover
          MaxC, MaxN, MaxD, MaxR
VARIABLES S, open, seen, got, made, n, m, quiet
I1 == <<300>>  I2 == <<300, 301>>  I3 == <<300, 301, 600>>
Y1 == <<TRUE>>  Y2 == <<TRUE, FALSE>>  Y3 == <<TRUE, TRUE, TRUE>>
R0 == {}  R1 == {[x |-> 300, l |-> 32], [x |-> 301, l |-> 32], [x |-> 256, l |-> 24]}
vars == <<S, open, seen, got, made, n, m, quiet>>

MInit == /\ S = Start(Retries, SoftL, HardL, IPs, Lst)
         /\ open = [p \in DOMAIN IPs |-> 0]        \* the session that was reported last and not ended yet
         /\ seen = <<>>                            \* the messages seen on each connection
         /\ got = {} /\ made = <<>>                \* messages delivered; connections in the order they were established
         /\ n = 0 /\ m = 0 /\ quiet = TRUE

\* what the status events of a step say about the sessions
RECURSIVE Follow(_, _)
Follow(op, st) ==
  IF st = <<>> THEN op
  ELSE LET e == Head(st)
           o2 == CASE e.k = "est" -> IF op[e.p] = 0 THEN [op EXCEPT ![e.p] = e.s] ELSE [op EXCEPT ![e.p] = -1]
                   [] e.k \in {"lost", "closed"} -> IF op[e.p] = e.s THEN [op EXCEPT ![e.p] = 0] ELSE [op EXCEPT ![e.p] = -1]
                   [] e.k = "drop" -> [op EXCEPT ![e.p] = 0]
                   [] e.k = "bsys" -> [op EXCEPT ![e.p] = 0]
                   [] OTHER -> op
       IN Follow(o2, Tail(st))
Ests(T) == Sel(T, LAMBDA e : e.k = "est")
ConnOf(S2, e) == CHOOSE c \in DOMAIN S2.c : S2.c[c].sid = e.s
Watch(R) ==
  LET k == Len(seen)
      old == [c \in 1..Len(R.S.c) |-> IF c <= k THEN seen[c] ELSE <<>>]
      Data(c) == LET f == Sel(R.fr, LAMBDA y : y.c = c /\ y.k = "data") IN Numbers(f)
  IN /\ S' = R.S
     /\ open' = Follow(open, R.st)
     /\ seen' = [c \in 1..Len(R.S.c) |-> old[c] \o Data(c)]
     /\ got' = got \union {R.dl[i].n : i \in DOMAIN R.dl}
     /\ made' = made \o (LET e == Ests(R.st) IN [i \in DOMAIN e |-> ConnOf(R.S, e[i])])
     /\ quiet' = ({i \in DOMAIN R.st : R.st[i].k \in {"drop", "bsys", "lost", "closed"}} = {})

Do(o) == \E R \in Outcomes(S, o) : Watch(R)
Z(k, p, c) == [o |-> k, p |-> p, c |-> c, k |-> "", n |-> 0, s |-> 0, fs |-> 0, x |-> 0, l |-> 0, on |-> TRUE]
Can(k) == k \in Kinds
Sids == IF Len(S.c) > 0 THEN {Len(S.c), 2000 + Len(S.c)} ELSE {}
Keep == UNCHANGED <<n, m>>
MNext ==
  \/ Can("snd") /\ n < MaxN /\ \E p \in Peers(S) : Do([Z("snd", p, 0) EXCEPT !.n = n + 1]) /\ n' = n + 1 /\ UNCHANGED m
  \/ \E k \in {"conn", "disc", "bsys", "asys"} : Can(k) /\ \E p \in Peers(S) : Do(Z(k, p, 0)) /\ Keep
  \/ \E k \in {"bnet", "anet"} : Can(k) /\ Len(S.rules) < MaxR /\ \E r \in Ranges : Do([Z(k, 0, 0) EXCEPT !.x = r.x, !.l = r.l]) /\ Keep
  \/ Can("tick") /\ Do(Z("tick", 0, 0)) /\ Keep
  \/ Can("listen") /\ \E p \in Peers(S) : Do([Z("listen", p, 0) EXCEPT !.on = ~S.on[p]]) /\ Keep
  \/ Can("dial") /\ Len(S.c) < MaxC /\ \E p \in Peers(S) : Do(Z("dial", p, 0)) /\ Keep
  \/ \E k \in {"fin", "rst"} : Can(k) /\ \E c \in Alive(S) : Do(Z(k, 0, c)) /\ Keep
  \/ Can("stall") /\ \E c \in Open(S) : ~S.c[c].sl /\ Do(Z("stall", 0, c)) /\ Keep
  \/ Can("stall") /\ \E c \in DOMAIN S.c : S.c[c].sl /\ Do(Z("flow", 0, c)) /\ Keep
  \/ \E k \in {"hello", "ack", "bye", "bad", "junk"} : Can(k) /\ \E c \in Alive(S) :
       Do([Z("f", 0, c) EXCEPT !.k = k, !.fs = IF k = "hello" THEN 1000 + c ELSE 0]) /\ Keep
  \/ Can("start") /\ \E c \in Alive(S), p \in Peers(S) : \E s \in Sids :
       (\A d \in DOMAIN S.c : S.c[d].sid # s) /\ Do([Z("f", p, c) EXCEPT !.k = "start", !.s = s]) /\ Keep
  \/ Can("data") /\ m < MaxD /\ \E c \in Alive(S) : Do([Z("f", 0, c) EXCEPT !.k = "data", !.n = 5000 + m]) /\ m' = m + 1 /\ UNCHANGED n
MSpec == MInit /\ [][MNext]_vars
Small == Len(S.c) <= MaxC

Increasing(q) == \A i, j \in DOMAIN q : i < j => q[i] < q[j]
InFly(c) == Numbers(Sel(S.c[c].fly, IsData))
RECURSIVE All(_, _)
All(cs, p) == IF cs = <<>> THEN <<>>
              ELSE (IF S.c[Head(cs)].q = p THEN seen[Head(cs)] \o InFly(Head(cs)) ELSE <<>>) \o All(Tail(cs), p)

(* C18: whatever breaks, a peer gets messages in the order sent, none twice, and what waits comes after *)
InOrder == \A p \in Peers(S) : Increasing(All(made, p) \o S.q[p])
(* C18: as long as no session ended nothing is missing *)
Whole == quiet => \A p \in Peers(S) : open[p] # 0 =>
           LET c == S.slot[p] IN c # 0 => \A i \in DOMAIN S.q[p] : \A j \in DOMAIN seen[c] : seen[c][j] < S.q[p][i]
(* C19: one connection per peer carries messages, and the events say which session it is *)
OneUp == \A p \in Peers(S) : {c \in Open(S) : S.c[c].q = p} \subseteq {S.slot[p]}
Honest == \A p \in Peers(S) : open[p] = IF Slot(S, p, {"up", "bye", "cr"}) THEN S.c[S.slot[p]].sid ELSE 0
Distinct == \A c, d \in Open(S) : c # d => S.c[c].sid # S.c[d].sid
Bounded == \A p \in Peers(S) : S.retry[p] <= S.max
(* nothing waits without an attempt to come: the connection is up, or retried, or never was possible *)
Tended == \A p \in Peers(S) : S.q[p] # <<>> /\ ~Blocked(S, p) /\ S.dst[p] # "blocked" =>
            S.retry[p] >= 0 \/ S.slot[p] # 0 \/ open[p] # 0
(* C20 *)
Kept == \A p \in Peers(S) : Blocked(S, p) => \A c \in Alive(S) : S.c[c].q = p => S.c[c].ph = "wait"
Limits == Cardinality(Ups(S)) <= S.soft /\ Cardinality(Alive(S)) <= S.hard
=============================================================================
