--------------------------- MODULE BuffersTrace ----------------------------
(* Validates histories of real encode buffers, pools and decoders.            *)
EXTENDS Buffers, Json, IOUtils, TLC
VARIABLES tr, l
tvars == <<bvars, tr, l>>
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
NT     == Len(Traces)
T      == Traces[tr].t
Ev     == T[l]
Set(q) == {q[i] : i \in DOMAIN q}
None   == [x \in {} |-> 0]
TInit == /\ tr \in 1..NT
         /\ l = 2
         /\ LET e == Traces[tr].t[1] IN
            /\ cfg = [cs |-> e.cs, max |-> e.max, free |-> e.free]
            /\ alloc = [s \in {"e", "p"} |-> Set(IF s = "e" THEN e.ea[1] ELSE e.pa[1])]
            /\ Cardinality(Set(e.ea[1])) <= e.max /\ Cardinality(Set(e.pa[1])) <= e.max
         /\ rel = [s \in {"e", "p"} |-> {}]
         /\ hs = None /\ cur = 0 /\ out = {} /\ lost = {} /\ decs = None
         /\ TLCSet(tr, 1)
Usable(s, h, e) == Must(s, h) \subseteq (alloc[s] \union Set(IF s = "e" THEN e.ea[1] ELSE e.pa[1])) \ rel[s]
Side(id) == IF id < 1000 THEN "e" ELSE "p"
(* the step is taken with handles h2 afterwards *)
Do(e, h2) == /\ hs' = h2
             /\ Memory("e", Set(e.ea[1]), Set(e.ea[2]), h2) /\ Memory("p", Set(e.pa[1]), Set(e.pa[2]), h2)
             /\ Usable("e", h2, e) /\ Usable("p", h2, e)
             /\ alloc' = [alloc EXCEPT !["e"] = @ \union Set(e.ea[1]), !["p"] = @ \union Set(e.pa[1])]
             /\ rel' = [rel EXCEPT !["e"] = @ \union Set(e.ea[2]), !["p"] = @ \union Set(e.pa[2])]
             /\ cfg' = cfg
Keep == UNCHANGED <<cur, out, lost, decs>>

EncEv(e) ==
  /\ UNCHANGED <<out, lost, decs>>
  /\ CASE e.r = "ok" -> /\ e.diff = 0
                        /\ LET h2 == Put(hs, e.id, [s |-> "e", segs |-> e.segs, may |-> Chunks(e.segs) \union IF e.of \in DOMAIN hs THEN hs[e.of].may ELSE {}])
                           IN Encode(e.id, e.n, e.segs, e.of, h2) /\ Do(e, h2)
       [] e.r = "nobuf" -> NoRoom(e.need) /\ Do(e, hs) /\ cur' = 0
       [] e.r = "err" -> (e.own = 0 \/ e.way = "fail") /\ Do(e, hs) /\ cur' = 0
       [] OTHER -> FALSE
Step ==
  LET e == Ev IN
  /\ e.bad = 0
  /\ CASE e.e = "enc" -> EncEv(e)
       [] e.e = "eswap" -> /\ e.r = "ok" \/ (e.r = "nobuf" /\ AvailE < 1)
                           /\ Do(e, hs) /\ cur' = 0 /\ UNCHANGED <<out, lost, decs>>
       [] e.e \in {"edrop", "pdrop", "gone"} -> Do(e, hs) /\ Keep
       [] e.e = "clone" -> e.segs = hs[e.of].segs /\ Do(e, Put(hs, e.id, hs[e.of])) /\ Keep
       [] e.e = "toref" -> /\ e.diff = 0 /\ Size(e.segs) = Size(hs[e.of].segs) /\ Chunks(e.segs) \subseteq hs[e.of].may
                           /\ Do(e, Put(hs, e.of, [hs[e.of] EXCEPT !.segs = e.segs])) /\ Keep
       [] e.e = "read" -> /\ e.diff = 0 /\ Size(e.segs) = Size(hs[e.of].segs) - e.k /\ Chunks(e.segs) \subseteq hs[e.of].may
                          /\ Do(e, Put(hs, e.of, [hs[e.of] EXCEPT !.segs = e.segs])) /\ Keep
       [] e.e = "join" -> /\ e.diff = 0 /\ Size(e.segs) = Size(hs[e.a].segs) + Size(hs[e.b].segs)
                          /\ LET m == hs[e.a].may \union hs[e.b].may IN
                             /\ Chunks(e.segs) \subseteq m
                             /\ Do(e, Put(Del(hs, {e.a, e.b}), e.id, [s |-> hs[e.a].s, segs |-> e.segs, may |-> m])) /\ Keep
       [] e.e = "drop" -> Do(e, Del(hs, {e.of})) /\ Keep
       [] e.e = "get" -> /\ IF e.c = 0 THEN ~CanGet /\ out' = out
                            ELSE /\ e.c \in Idle \union Set(e.pa[1])
                                 /\ e.c \notin Must("p", hs)
                                 /\ out' = out \union {e.c}
                         /\ Do(e, hs) /\ UNCHANGED <<cur, lost, decs>>
       [] e.e = "lease" -> /\ e.c \in out /\ e.segs = <<<<e.c, e.a, e.b>>>>
                           /\ Do(e, Put(hs, e.id, [s |-> "p", segs |-> e.segs, may |-> {e.c}])) /\ Keep
       [] e.e = "ret" -> e.c \in out /\ out' = out \ {e.c} /\ Do(e, hs) /\ UNCHANGED <<cur, lost, decs>>
       [] e.e = "lose" -> e.c \in out /\ out' = out \ {e.c} /\ lost' = lost \union {e.c} /\ Do(e, hs) /\ UNCHANGED <<cur, decs>>
       [] e.e = "sizes" -> /\ e.all = Cardinality(Live("p") \union lost) /\ e.idle = Cardinality(Idle)
                           /\ Do(e, hs) /\ Keep
       [] e.e = "dnew" -> /\ e.c \in out
                          /\ decs' = Put(decs, e.d, [c |-> e.c, may |-> {}, u |-> 0])
                          /\ out' = out \ {e.c}
                          /\ lost' = IF e.lost THEN lost \union {decs[e.d].c} ELSE lost
                          /\ Do(e, hs) /\ UNCHANGED cur
       [] e.e = "ddrop" -> /\ lost' = lost \union {decs[e.d].c}
                           /\ decs' = Del(decs, {e.d})
                           /\ Do(e, hs) /\ UNCHANGED <<cur, out>>
       [] e.e = "dfeed" -> /\ e.c # 0 => /\ e.c = decs[e.d].c
                                         /\ e.b > e.a => \A y \in AllSegs("p") : Apart(<<e.c, e.a, e.b>>, y)
                           /\ decs' = [decs EXCEPT ![e.d].u = @ + e.b - e.a]
                           /\ Do(e, hs) /\ UNCHANGED <<cur, out, lost>>
       [] e.e = "dget" -> /\ CASE e.r = "ok" -> /\ e.diff = 0
                                                /\ \A i \in DOMAIN e.segs : \A y \in AllSegs("p") : Apart(e.segs[i], y)
                                                /\ Do(e, Put(hs, e.id, [s |-> "p", segs |-> e.segs, may |-> Chunks(e.segs)]))
                                                /\ decs' = [decs EXCEPT ![e.d].u = @ - 9 - Size(e.segs)]
                               [] e.r = "nodata" -> Do(e, hs) /\ decs' = [decs EXCEPT ![e.d].may = IF decs[e.d].u = 0 THEN {} ELSE @]
                               [] OTHER -> FALSE
                          /\ UNCHANGED <<cur, out, lost>>
       [] e.e = "dswap" -> /\ IF e.c = 0 THEN ~CanGet /\ decs' = decs
                              ELSE /\ e.c \in Idle \union Set(e.pa[1])
                                   /\ e.c \notin Must("p", hs)
                                   /\ decs' = Put(decs, e.d, [decs[e.d] EXCEPT !.c = e.c, !.may = decs[e.d].may \union IF decs[e.d].u = 0 THEN {} ELSE {decs[e.d].c}])
                           /\ Do(e, hs) /\ UNCHANGED <<cur, out, lost>>
       [] e.e = "end" -> Do(e, hs) /\ (alloc'["e"] = rel'["e"] \/ e.lax) /\ alloc'["p"] = rel'["p"] /\ Keep
       [] OTHER -> FALSE
TNext == l <= Len(T) /\ Step /\ l' = l + 1 /\ tr' = tr
TSpec == TInit /\ [][TNext]_tvars
Record == TLCSet(tr, IF TLCGet(tr) < l THEN l ELSE TLCGet(tr))
AllChecked == LET bad == {t \in 1..NT : TLCGet(t) # Len(Traces[t].t) + 1}
              IN \A t \in bad : Print(<<"REJECT", Traces[t].id, TLCGet(t)>>, TRUE)
=============================================================================
