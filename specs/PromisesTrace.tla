--------------------------- MODULE PromisesTrace ---------------------------
EXTENDS Promises, Json, IOUtils, TLC
VARIABLES ps, tr, l
vars == <<ps, tr, l>>
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
NT     == Len(Traces)
T      == Traces[tr].t
Ev     == T[l]
W(x)   == [ok |-> x.ok, v |-> x.v]
TInit  == tr \in 1..NT /\ l = 2 /\ ps = <<>> /\ TLCSet(tr, 1)
Q      == ps[Ev.p]
Set(q) == ps' = [ps EXCEPT ![Ev.p] = q]
Step ==
  CASE Ev.e = "new"   -> Ev.p = Len(ps) + 1 /\ ps' = Append(ps, Fresh(Ev.k))
    [] Ev.e = "ful"   -> Q.st = "pend" /\ Ev.r = ReplyTells(Q) /\ Set(Resolve(Q, W(Ev.w)))
    [] Ev.e = "drop"  -> Q.st = "pend" /\ Set(Lose(Q))
    [] Ev.e = "later" -> Q.st = "pend" /\ Set(Later(Q, W(Ev.w), Ev.drop))
    [] Ev.e = "join"  -> Q.st = "later" /\ Ev.r \in JoinTells(Q) /\ Set([Q EXCEPT !.st = "res"])
    [] Ev.e = "dropf" -> Q.fut = "live" /\ Set([Q EXCEPT !.fut = "gone", !.reg = FALSE])
    [] Ev.e = "wait"  -> /\ Q.fut = "live"
                         /\ [r |-> Ev.r, w |-> W(Ev.w)] \in Outcomes(Q, Ev.how, Ev.ms)
                         /\ IF Ev.r = "timeout" THEN Ev.el >= Ev.ms /\ Ev.kept = (Ev.how \in Keeps) ELSE (Long(Ev.ms) => Ev.el < Ev.ms)
                         /\ Set(Waited(Q, Ev.how, Ev.r))
    [] Ev.e = "woken" -> (Q.reg /\ Q.st = "res" => Ev.n > 0) /\ ps' = ps
    [] Ev.e = "coll"  -> LET qs == [i \in 1..Len(Ev.ps) |-> ps[Ev.ps[i]]]
                             ok == Ev.r = "val"
                         IN /\ \A i \in 1..Len(qs) : qs[i].fut = "live"
                            /\ IF ok THEN AllGood(qs, Ev.how) /\ [i \in 1..Len(Ev.ws) |-> W(Ev.ws[i])] = Yield(qs, Ev.how)
                                     ELSE FirstBad(qs, Ev.how, Ev.ms) /\ Ev.r = Fails(Ev.how)
                            /\ (Long(Ev.ms) /\ \A i \in 1..Len(qs) : qs[i].st # "pend") => Ev.el < Ev.ms
                            /\ ps' = [i \in 1..Len(ps) |-> IF \E j \in 1..Len(Ev.ps) : Ev.ps[j] = i
                                                           THEN [ps[i] EXCEPT !.fut = IF ok THEN "got" ELSE "gone", !.reg = FALSE] ELSE ps[i]]
    [] OTHER -> FALSE
TNext == l <= Len(T) /\ Step /\ l' = l + 1 /\ UNCHANGED tr
TSpec == TInit /\ [][TNext]_vars
Record == TLCSet(tr, IF TLCGet(tr) < l THEN l ELSE TLCGet(tr))
AllChecked == LET bad == {t \in 1..NT : TLCGet(t) # Len(Traces[t].t) + 1}
              IN \A t \in bad : Print(<<"REJECT", Traces[t].id, TLCGet(t)>>, TRUE)
=============================================================================
