---------------------------- MODULE RoutingTrace ----------------------------
(* Validates what real dispatchers, and real actor stores, did with           *)
(* registrations and messages.                                                *)
EXTENDS Routing, Json, IOUtils, TLC
VARIABLES tr, l
tvars == <<rvars, tr, l>>
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
NT     == Len(Traces)
T      == Traces[tr].t
Ev     == T[l]
Imp    == T[1].imp = 1
Store  == T[1].store = 1
TInit == /\ tr \in 1..NT
         /\ l = 2
         /\ RInit
         /\ TLCSet(tr, 1)

Answered(e) == e.r = "ok" => e.q = e.p /\ e.same = 1
Was(p) == IF ~Has1(reg, p) THEN "none" ELSE reg[p].k
Removed == {p \in DOMAIN reg : IsRef(reg[p]) /\ reg[p].c \in dead}

Into(e, en) ==
  IF ~InsertOk(e.p) THEN e.prev = "inv" /\ Same
  ELSE /\ e.held = (IF Has1(reg, e.p) THEN 1 ELSE 0)
       /\ e.prev = Was(e.p)
       /\ Put1(e.p, en)
Take1(p) == /\ reg' = Drop1(reg, {p}) /\ Forget(p) /\ UNCHANGED <<uu, dead>>

Step ==
  LET e == Ev IN
  CASE e.e = "ali"  -> RegisterName(e.p, RefTo(e.c), e.u = 1, e.r) /\ Answered(e)
    [] e.e = "pol"  -> RegisterName(e.p, PolOf(e.k), e.u = 1, e.r) /\ Answered(e)
    [] e.e = "uni"  -> RegisterUnique(e.c, e.r) /\ (e.r = "ok" => e.same = 1)
    [] e.e = "race" -> Race(e.p, e.cs, e.rs)
    [] e.e = "kill" -> End(e.c)
    [] e.e = "reap" -> e.r = 1 /\ Collect
    [] e.e = "snd"  -> /\ e.bad = 0
                       /\ IF e.c >= 0 THEN ToUnique(e.c, e.g, e.d)
                          ELSE ToName(e.p, Imp, Store, <<"s", e.s, e.lp>>, <<"r", e.p, e.lp>>, e.g, e.d)
    [] e.e = "ins"  -> IF e.uni = 1 THEN /\ e.held = (IF e.c \in uu THEN 1 ELSE 0)
                                         /\ e.prev = (IF e.c \in uu THEN "ref" ELSE "none")
                                         /\ uu' = uu \cup {e.c} /\ UNCHANGED <<reg, dead, win, pin>>
                       ELSE Into(e, RefTo(e.c))
    [] e.e = "setp" -> Into(e, PolOf(e.k))
    [] e.e = "rem"  -> LET S == {p \in DOMAIN reg : reg[p] = RefTo(e.c)}
                       IN /\ e.n = Cardinality(S) + (IF e.c \in uu THEN 1 ELSE 0)
                          /\ reg' = Drop1(reg, S) /\ uu' = uu \ {e.c}
                          /\ win' = << >> /\ pin' = << >> /\ UNCHANGED dead
    [] e.e = "remu" -> /\ e.b = (IF e.c \in uu THEN 1 ELSE 0)
                       /\ uu' = uu \ {e.c} /\ UNCHANGED <<reg, dead, win, pin>>
    [] e.e = "remn" -> /\ e.b = (IF Has1(reg, e.p) THEN 1 ELSE 0)
                       /\ Take1(e.p)
    [] e.e = "clean" -> /\ e.n = Cardinality(Removed) + Cardinality(uu \cap dead)
                        /\ Collect
    [] OTHER -> FALSE
TNext == l <= Len(T) /\ Step /\ l' = l + 1 /\ tr' = tr
TSpec == TInit /\ [][TNext]_tvars
Record == TLCSet(tr, IF TLCGet(tr) < l THEN l ELSE TLCGet(tr))
AllChecked == LET bad == {t \in 1..NT : TLCGet(t) # Len(Traces[t].t) + 1}
              IN \A t \in bad : Print(<<"REJECT", Traces[t].id, TLCGet(t)>>, TRUE)
=============================================================================
