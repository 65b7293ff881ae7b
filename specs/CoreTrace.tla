------------------------------ MODULE CoreTrace ------------------------------
(* Validates recorded executions of the real component runtime against Core. *)
EXTENDS Core, Json, IOUtils

VARIABLES tr, l            \* which trace, and the position in it
tvars == <<vars, tr, l>>

Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
NT     == Len(Traces)
T      == Traces[tr].t
Ev     == T[l]
Max(S) == CHOOSE x \in S : \A y \in S : x >= y

TInit == /\ tr \in 1..NT
         /\ l = 2
         /\ Init0(Traces[tr].t[1].i, Traces[tr].t[1].j, Traces[tr].t[1].k # "mt")
         /\ TLCSet(tr, 1)

Skip == UNCHANGED vars
Step ==
  LET e == Ev IN
  CASE e.e = "new"     -> New(e.c)
    [] e.e = "ctl"     -> Command(e.c, e.j, e.k, e.i)
    [] e.e = "send"    -> Send(e.c, e.j, e.i)
    [] e.e = "trig"    -> Trigger(e.c, e.j, e.i)
    [] e.e = "trigd"   -> TriggerDirect(e.c, e.s, e.j, e.i)
    [] e.e = "conn"    -> Connect(e.i, e.c, e.j, e.s, e.k)
    [] e.e = "disc"    -> (e.r = "ok" \/ Broken(e.i)) /\ Disconnect(e.i)
    [] e.e = "setrec"  -> SetRecovery(e.c, e.i)
    [] e.e = "rel"     -> Release(e.c)
    [] e.e = "sched"   -> Schedule(e.c, e.i, e.j, e.s)
    [] e.e = "cancel"  -> Cancel(e.c, e.i)
    [] e.e = "adv"     -> Advance(e.i)
    [] e.e = "xb"      -> ExecBegin(e.c)
    [] e.e = "xe"      -> ExecEnd(e.c)
    [] e.e = "hb"      -> CASE e.k \in {"start", "stop", "kill"} -> BeginCommand(e.c, e.k)
                            [] e.k \in {"msg", "ask"} -> BeginMessage(e.c, e.k, e.s, e.i)
                            [] e.k = "port" -> BeginPort(e.c, e.j, e.s, e.i)
                            [] e.k = "tmo"  -> BeginTimeout(e.c, e.i)
                            [] OTHER -> FALSE
    [] e.e = "he"      -> HandlerEnd(e.c, e.k, e.i, e.r, e.j)
    [] e.e = "spawn"   -> Spawn(e.c, e.i)
    [] e.e = "fb"      -> FutBegin(e.c, e.i)
    [] e.e = "fw"      -> FutWait(e.c, e.i, e.j)
    [] e.e = "fr"      -> FutResume(e.c, e.i, e.j, e.r)
    [] e.e = "fe"      -> FutEnd(e.c, e.i, e.r, e.j)
    [] e.e = "fire"    -> Fire(e.i, e.r)
    [] e.e = "rec"     -> e.r = "ok" /\ e.j = e.c /\ RecoveryCalled(e.c, e.i, e.k)
    [] e.e = "recact"  -> e.j = e.c /\ RecoveryActs(e.c, e.i)
    [] e.e = "n"       -> Notified(e.i, e.r)
    [] e.e = "ask"     -> Ask(e.c, e.i, e.j)
    [] e.e = "reply"   -> Reply(e.c, e.i, e.j)
    [] e.e = "replied" -> e.r = "ok" /\ Skip
    [] e.e = "dropask" -> DropAsk(e.c, e.i)
    [] e.e = "fwd"     -> Forward(e.c, e.i, e.j)
    [] e.e = "a"       -> Answered(e.i, e.r, e.j)
    [] e.e = "eq"      -> e.r = (IF e.c = e.j THEN "t" ELSE "f") /\ Skip
    [] e.e = "sdb"     -> ShutdownBegin
    [] e.e = "sde"     -> ShutdownEnd(e.r)
    [] e.e = "st"      -> e.k = Status(e.c) /\ Skip
    [] e.e = "rq"      -> MayIdle(e.c) /\ Skip
    [] e.e = "q"       -> Quiet /\ Skip
    [] OTHER           -> FALSE          \* crash, overlap, thread, stale, poison, net: never allowed

TNext == /\ l <= Len(T)
         /\ Step
         /\ l' = l + 1
         /\ tr' = tr
TSpec == TInit /\ [][TNext]_tvars

\* the longest prefix explained, per trace
Record == TLCSet(tr, IF TLCGet(tr) < l THEN l ELSE TLCGet(tr))
Accepted == \A t \in 1..NT :
   \/ TLCGet(t) = Len(Traces[t].t) + 1
   \/ Print(<<"REJECT", Traces[t].id, TLCGet(t)>>, FALSE)
AllChecked == LET bad == {t \in 1..NT : TLCGet(t) # Len(Traces[t].t) + 1}
              IN \A t \in bad : Print(<<"REJECT", Traces[t].id, TLCGet(t)>>, TRUE)
=============================================================================
