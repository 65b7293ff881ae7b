----------------------------- MODULE NetTrace ------------------------------
(* Validates what a real system on a real socket did, step by step.           *)
EXTENDS Net, Json, IOUtils, TLC
VARIABLES S, tr, l
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
NT     == Len(Traces)
T      == Traces[tr].t
Ev     == T[l]
TInit == /\ tr \in 1..NT
         /\ l = 2
         /\ LET e == Traces[tr].t[1] IN
            S = Start(e.max, e.soft, e.hard, [p \in DOMAIN e.peers |-> e.peers[p].x], [p \in DOMAIN e.peers |-> e.peers[p].on])
         /\ TLCSet(tr, 1)
Norm(e) == LET f == Sel(e.fr, LAMBDA y : y.k = "start") IN e @@ [fs |-> IF f = <<>> THEN 0 ELSE f[1].s]
Fits(fs) == fs = 0 \/ (fs \notin S.used /\ fs >= 1000 /\ fs < 2000)
Step == /\ Ev.e = "op"
        /\ LET o == Norm(Ev) IN
           IF o.o = "down" THEN DownOk(S, o.fr, Range(o.end)) /\ o.nw = <<>> /\ o.dl = <<>> /\ S' = S
           ELSE /\ Fits(o.fs)
                /\ \E R \in Outcomes(S, o) : Seen(R, o.st, o.dl, o.fr, Range(o.end), o.nw) /\ S' = R.S
TNext == l <= Len(T) /\ Step /\ l' = l + 1 /\ tr' = tr
TSpec == TInit /\ [][TNext]_<<S, tr, l>>
Record == TLCSet(tr, IF TLCGet(tr) < l THEN l ELSE TLCGet(tr))
AllChecked == LET bad == {t \in 1..NT : TLCGet(t) # Len(Traces[t].t) + 1}
              IN \A t \in bad : Print(<<"REJECT", Traces[t].id, TLCGet(t)>>, TRUE)
=============================================================================
