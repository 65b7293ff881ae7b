---------------------------- MODULE FramesTrace ----------------------------
(* Validates what a real decoder answered while a stream was fed to it in     *)
(* pieces, and what the real encoder wrote.                                   *)
EXTENDS Frames, Json, IOUtils, TLC
VARIABLES tr, l
tvars == <<fvars, tr, l>>
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
NT     == Len(Traces)
T      == Traces[tr].t
Ev     == T[l]
TInit == /\ tr \in 1..NT
         /\ l = 2
         /\ FInit(Traces[tr].t[1].ps)
         /\ TLCSet(tr, 1)
Skip == UNCHANGED fvars

Fits(e, a) ==
  /\ a.r = e.r
  /\ CASE a.r = "data" -> /\ e.n = a.n
                          /\ IF a.n <= 64 THEN e.b = Bytes(a.at, a.n) ELSE \E i \in 1..Len(e.ats) : e.ats[i] = a.at
       [] a.r \in {"hello", "start"} -> e.ip = a.ip /\ e.port = a.port /\ e.id = a.id
       [] OTHER -> TRUE
GetEv(e) == IF broken THEN e.r # "panic" /\ Skip
            ELSE \E a \in Answers(pos, fed) : Fits(e, a) /\ Get(a)
HasEv(e) == /\ e.r # "panic"
            /\ ~broken => LET A == Answers(pos, fed) IN
                          /\ e.r = "err" => Err \in A
                          /\ e.r = "yes" => \E a \in A : a # None
                          /\ e.r = "no"  => None \in A
            /\ broken' = (broken \/ e.r = "err")
            /\ UNCHANGED <<ps, starts, fed, pos>>
Step ==
  LET e == Ev IN
  CASE e.e = "feed" -> IF broken THEN Skip ELSE e.n >= 0 /\ Feed(e.n)
    [] e.e = "swap" -> e.r = "ok" /\ Skip
    [] e.e = "get"  -> GetEv(e)
    [] e.e = "has"  -> HasEv(e)
    [] e.e = "chk"  -> e.bad = 0 /\ Skip
    [] e.e = "fenc" -> e.r = "ok" /\ e.by = EncFrame(e.f) /\ e.len = Len(Content(e.f)) /\ Skip
    [] OTHER -> FALSE
TNext == l <= Len(T) /\ Step /\ l' = l + 1 /\ tr' = tr
TSpec == TInit /\ [][TNext]_tvars
Record == TLCSet(tr, IF TLCGet(tr) < l THEN l ELSE TLCGet(tr))
AllChecked == LET bad == {t \in 1..NT : TLCGet(t) # Len(Traces[t].t) + 1}
              IN \A t \in bad : Print(<<"REJECT", Traces[t].id, TLCGet(t)>>, TRUE)
=============================================================================
