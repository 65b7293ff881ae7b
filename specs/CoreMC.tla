------------------------------- MODULE CoreMC -------------------------------
(***************************************************************************)
(* Core with a nondeterministic environment, bounded: every history of     *)
(* commands, sends, triggers, timers, futures, asks and faults up to the   *)
(* constants.  The properties are stated over history variables, i.e.      *)
(* independently of the way Core keeps its state.                          *)
(***************************************************************************)
EXTENDS Core

CONSTANTS MaxCmd, MaxMsg, MaxEv, MaxFut, MaxTmo, MaxAdv, MaxAsk, MaxNote,
          Cmds,        \* commands the driver gives
          Results,     \* outcomes of handlers besides "ok"
          FutResults,  \* outcomes of futures besides "ok"
          Det, Thr, MM,
          Edges,       \* initial connections
          Recov,       \* components that have a recovery function
          UserOps      \* BOOLEAN: handlers also send, trigger, ...

VARIABLES
  cnt,   \* how much of each bound is used up
  msgs,  \* id -> [s, c, n]: sender, receiver, number of times handled
  evs,   \* <<id, c, p>> -> number of times handled
  last,  \* <<s, c>> -> id of the last message handled
  tm,    \* timer -> [c, due, per, cancelled, n]
  recs,  \* <<c, tag>> -> number of times called
  told,  \* note -> TRUE when told ok
  hist   \* [c -> set of transitions that have happened]

mvars == <<cnt, msgs, evs, last, tm, recs, told, hist>>
all == <<vars, mvars>>

User == {"msg", "ask", "port", "tmo"}
Zc == [cmd |-> 0, msg |-> 0, ev |-> 0, fut |-> 0, prom |-> 0, tmo |-> 0, adv |-> 0, ask |-> 0, note |-> 0]

MCInit ==
  /\ Init0(Thr, MM, Det)
  /\ cnt = Zc /\ msgs = <<>> /\ evs = <<>> /\ last = <<>> /\ tm = <<>> /\ recs = <<>> /\ told = {}
  /\ hist = [c \in Comps |-> {}]

Same == UNCHANGED mvars
Use(k) == cnt' = [cnt EXCEPT ![k] = @ + 1]
Running(c) == busy[c].k # ""

Setup == \* the components exist, are connected, and know how to recover, before anything else happens
  /\ \E c \in Comps : life[c] = "none"
  /\ LET c == CHOOSE c \in Comps : life[c] = "none" /\ \A d \in Comps : life[d] = "none" => d >= c IN New(c)
  /\ Same
Ready0 == \A c \in Comps : life[c] # "none"
SetupEdges ==
  /\ Ready0 /\ cnt = Zc /\ edges = {} /\ Edges # {}
  /\ edges' = {[ch |-> 0, sc |-> x[1], sp |-> x[2], dc |-> x[3], dp |-> x[4]] : x \in Edges}
  /\ UNCHANGED <<cfg, life, busy, blk, ctlq, inbox, pin, tq, stale, timers, now, futs, prom, notes, rec, asks, gone, shut, ex, fair>>
  /\ Same
SetupRec ==
  /\ Ready0 /\ cnt = Zc
  /\ \E c \in Recov : rec[c].tag = 0 /\ SetRecovery(c, c)
  /\ Same
Go == Ready0 /\ (Edges = {} \/ edges # {}) /\ (\A c \in Recov : rec[c].tag # 0)

Senders == {0} \union (IF UserOps THEN {c \in Comps : Running(c)} ELSE {})
EnvCmd == /\ cnt.cmd < MaxCmd
          /\ \E c \in Comps, cmd \in Cmds, nt \in {0, 1} :
               /\ nt = 1 => cnt.note < MaxNote
               /\ Command(0, c, cmd, IF nt = 1 THEN cnt.note + 1 ELSE 0)
               /\ cnt' = [cnt EXCEPT !.cmd = @ + 1, !.note = @ + nt]
               /\ UNCHANGED <<msgs, evs, last, tm, recs, told, hist>>
EnvSend == /\ cnt.msg < MaxMsg
           /\ \E s \in Senders, c \in Comps :
                /\ Send(s, c, cnt.msg + 1)
                /\ msgs' = Put(msgs, cnt.msg + 1, [s |-> s, c |-> c, n |-> 0, void |-> Ended(c)])
           /\ Use("msg")
           /\ UNCHANGED <<evs, last, tm, recs, told, hist>>
EnvTrig == /\ cnt.ev < MaxEv
           /\ \/ \E c \in Comps, p \in Ports : Running(c) /\ (\E e \in edges : e.sc = c /\ e.sp = p)
                   /\ Trigger(c, p, cnt.ev + 1)
                   /\ evs' = [x \in {<<cnt.ev + 1, e.dc, e.dp>> : e \in Targets(c, p)} |-> 0] @@ evs
              \/ \E c \in Comps, p \in {0, 2} :
                   /\ TriggerDirect(0, c, p, cnt.ev + 1)
                   /\ evs' = (<<cnt.ev + 1, c, p>> :> 0) @@ evs
           /\ Use("ev")
           /\ UNCHANGED <<msgs, last, tm, recs, told, hist>>
EnvTimer == \/ /\ cnt.tmo < MaxTmo
               /\ \E c \in Comps, d \in {1, 2}, per \in {0, 1} :
                    /\ Schedule(c, cnt.tmo + 1, d, per)
                    /\ tm' = Put(tm, cnt.tmo + 1, [c |-> c, due |-> now + d, per |-> per, cancelled |-> FALSE, n |-> 0])
               /\ Use("tmo")
               /\ UNCHANGED <<msgs, evs, last, recs, told, hist>>
            \/ \E c \in Comps, t \in DOMAIN tm :
                 /\ tm[t].c = c /\ ~tm[t].cancelled
                 /\ Cancel(c, t)
                 /\ tm' = [tm EXCEPT ![t].cancelled = TRUE]
                 /\ UNCHANGED <<cnt, msgs, evs, last, recs, told, hist>>
            \/ /\ cnt.adv < MaxAdv
               /\ \E d \in {1, 2} : Advance(d)
               /\ Use("adv")
               /\ UNCHANGED <<msgs, evs, last, tm, recs, told, hist>>
EnvFut == \/ /\ cnt.fut < MaxFut
             /\ \E c \in Comps : Spawn(c, cnt.fut + 1)
             /\ Use("fut")
             /\ UNCHANGED <<msgs, evs, last, tm, recs, told, hist>>
          \/ /\ \E p \in 1..cnt.prom : \E r \in {"ok"} : Fire(p, r)
             /\ Same
EnvAsk == \/ /\ cnt.ask < MaxAsk
             /\ \E c \in Comps : Ask(0, cnt.ask + 1, c)
             /\ Use("ask")
             /\ UNCHANGED <<msgs, evs, last, tm, recs, told, hist>>
          \/ /\ \E c \in Comps, a \in DOMAIN asks : \/ Reply(c, a, 10 * a)
                                                   \/ DropAsk(c, a)
                                                   \/ \E d \in Comps : d # c /\ Forward(c, a, d)
             /\ Same

Execution == Det /\ (\E c \in Comps : ExecBegin(c) \/ ExecEnd(c)) /\ Same

Begin ==
  \/ /\ \E c \in Comps, cmd \in {"start", "stop", "kill"} : BeginCommand(c, cmd)
     /\ Same
  \/ \E c \in Comps, s \in {0} \union Comps, i \in 1..(cnt.msg + cnt.ask) :
        \/ /\ BeginMessage(c, "msg", s, i)
           /\ msgs' = [msgs EXCEPT ![i].n = @ + 1]
           /\ last' = Put(last, <<s, c>>, i)
           /\ UNCHANGED <<cnt, evs, tm, recs, told, hist>>
        \/ /\ BeginMessage(c, "ask", s, i)
           /\ Same
  \/ \E c \in Comps, p \in Ports, s \in {0} \union {4 * d + q : d \in Comps, q \in Ports}, i \in 1..cnt.ev :
        /\ BeginPort(c, p, s, i)
        /\ evs' = [evs EXCEPT ![<<i, c, p>>] = @ + 1]
        /\ UNCHANGED <<cnt, msgs, last, tm, recs, told, hist>>
  \/ \E c \in Comps, t \in DOMAIN tm :
        /\ BeginTimeout(c, t)
        /\ tm' = [tm EXCEPT ![t].n = @ + 1]
        /\ UNCHANGED <<cnt, msgs, evs, last, recs, told, hist>>

Happened(c, tr, r) == IF r \in {"ok", "benign"} \/ (tr \in {"kill", "killed"} /\ r # "panic") \/ r = "unrec"
                      THEN [hist EXCEPT ![c] = @ \union {IF r = "unrec" \/ tr = "killed" THEN "kill" ELSE tr}] ELSE hist
End ==
  \/ \E c \in Comps, r \in {"ok"} \union Results :
        /\ Running(c) /\ busy[c].k # "fut"
        /\ r = "block" => cnt.fut < MaxFut /\ busy[c].k # "killed"
        /\ HandlerEnd(c, IF busy[c].k = "killed" THEN "kill" ELSE busy[c].k, busy[c].i, r, IF r = "block" THEN cnt.fut + 1 ELSE 0)
        /\ hist' = Happened(c, busy[c].k, r)
        /\ cnt' = IF r = "block" THEN [cnt EXCEPT !.fut = @ + 1] ELSE cnt
        /\ UNCHANGED <<msgs, evs, last, tm, recs, told>>
  \/ \E c \in Comps, f \in DOMAIN futs, r \in {"ok"} \union FutResults :
        /\ r = "block" => cnt.fut < MaxFut
        /\ FutEnd(c, f, r, IF r = "block" THEN cnt.fut + 1 ELSE 0)
        /\ hist' = Happened(c, IF futs[f].bl THEN blk[c].tr ELSE "none", r)
        /\ cnt' = IF r = "block" THEN [cnt EXCEPT !.fut = @ + 1] ELSE cnt
        /\ UNCHANGED <<msgs, evs, last, tm, recs, told>>
Futures ==
  \/ /\ \E c \in Comps, f \in DOMAIN futs : FutBegin(c, f)
     /\ Same
  \/ \E c \in Comps, f \in DOMAIN futs :
        /\ futs[f].p = 0
        /\ FutWait(c, f, cnt.prom + 1)
        /\ Use("prom")
        /\ UNCHANGED <<msgs, evs, last, tm, recs, told, hist>>
  \/ /\ \E c \in Comps, f \in DOMAIN futs, p \in 1..cnt.prom : FutResume(c, f, p, "ok")
     /\ Same
Recovery ==
  \/ \E c \in Comps, k \in {"panic", "recov"} :
        /\ RecoveryCalled(c, c, k)
        /\ recs' = Put(recs, c, (IF c \in DOMAIN recs THEN recs[c] ELSE 0) + 1)
        /\ UNCHANGED <<cnt, msgs, evs, last, tm, told, hist>>
  \/ /\ \E c \in Comps : RecoveryActs(c, c)
     /\ Same
Tell ==
  \/ \E n \in DOMAIN notes, r \in {"ok", "err"} :
        /\ Notified(n, r)
        /\ told' = IF r = "ok" THEN told \union {n} ELSE told
        /\ UNCHANGED <<cnt, msgs, evs, last, tm, recs, hist>>
  \/ /\ \E a \in DOMAIN asks, r \in {"ok", "err"} : Answered(a, r, 10 * a)
     /\ Same

Env == EnvCmd \/ EnvSend \/ EnvTrig \/ EnvTimer \/ EnvFut \/ EnvAsk
Sys == Execution \/ Begin \/ End \/ Futures \/ Recovery \/ Tell
MCNext == \/ Setup \/ SetupEdges \/ SetupRec
          \/ Go /\ (Env \/ Sys)
MCSpec == MCInit /\ [][MCNext]_all

-----------------------------------------------------------------------------
\* C01
Once == \A i \in DOMAIN msgs : msgs[i].n <= 1
InOrder == [][\A x \in DOMAIN last : x \in DOMAIN last' => last'[x] >= last[x]]_last
NoneLost == Quiet => \A i \in DOMAIN msgs : life[msgs[i].c] = "active" /\ blk[msgs[i].c].f = 0 => msgs[i].n = 1
\* C03
Gated == [][\A c \in Comps : busy[c].k = "" /\ busy'[c].k \in User => life[c] = "active" /\ blk[c].f = 0]_busy
Became == [][\A c \in Comps :
   /\ (life'[c] = "active"  /\ life[c] # "active")  => (busy[c].k \in {"start", "fut"})
   /\ (life'[c] = "passive" /\ life[c] = "active") => (busy[c].k \in {"stop", "fut"})]_life
\* C04
Final == [][\A c \in Comps : life[c] \in {"dead", "faulty"} => life'[c] = life[c]]_life
DeadIsDead == \A c \in Comps : Ended(c) => /\ busy[c].k = "" /\ blk[c].f = 0
                                           /\ ctlq[c] = <<>> /\ inbox[c] = <<>> /\ pin[c] = <<>> /\ tq[c] = {}
\* C05
Exclusive == \A c \in Comps : blk[c].f # 0 /\ busy[c].k # "" => busy[c] = [k |-> "fut", i |-> blk[c].f]
BlockHeld == [][\A c \in Comps : blk[c].f # 0 /\ blk'[c] # blk[c] => futs[blk[c].f].st = "run"]_blk
FutOnce == [][\A f \in DOMAIN futs : futs[f].st = "done" => futs'[f].st = "done"]_futs
FutDone == Quiet => \A f \in DOMAIN futs : Alive(futs[f].c) /\ blk[futs[f].c].f \in {0, f} => Suspended(f)
\* C06
RecoveredOnce == \A c \in DOMAIN recs : recs[c] = 1 /\ life[c] = "faulty"
RecoveredAll == Quiet => \A c \in Recov : life[c] = "faulty" => c \in DOMAIN recs
\* C07
ToldTruth == \A n \in told : notes[n].cmd \in hist[notes[n].c] \/ (notes[n].cmd = "kill" /\ life[notes[n].c] = "dead")
ToldAll == Quiet => \A n \in DOMAIN notes : notes[n].st = "wait" =>
             \/ life[notes[n].c] = "faulty" \/ life[notes[n].c] = "dead"
             \/ blk[notes[n].c].f # 0
\* C08
RightWay == \A x \in DOMAIN evs : evs[x] <= 1
EvLost == Quiet => \A x \in DOMAIN evs : life[x[2]] = "active" /\ blk[x[2]].f = 0 => evs[x] = 1
\* C09
Batch == Det => \A c \in Comps : ex[c].n <= Thr
\* C10
TmoRight == \A t \in DOMAIN tm : /\ tm[t].per = 0 => tm[t].n <= 1
                                 /\ tm[t].n > 0 => now >= tm[t].due
                                 /\ tm[t].per > 0 /\ tm[t].n > 0 => tm[t].n <= now - tm[t].due + 1
NoneAfterCancel == [][\A t \in DOMAIN tm : tm[t].cancelled => tm'[t].n = tm[t].n]_tm
TmoLost == Quiet => \A t \in DOMAIN tm : tm[t].per = 0 /\ ~tm[t].cancelled /\ tm[t].due <= now /\ life[tm[t].c] = "active" /\ blk[tm[t].c].f = 0
                                          => tm[t].n = 1
\* C11
OneAnswer == [][\A a \in DOMAIN asks : asks[a].st \in {"replied", "told", "dropped"} => asks'[a].v = asks[a].v]_asks
AskSettled == Quiet => \A a \in DOMAIN asks : asks[a].st \in {"open", "held", "lost", "told"}
\* every state either is quiet, has something left to do, or waits for the environment
Progress == Go => Quiet \/ ENABLED Sys

NoEdges == {}
E12 == {<<1, 0, 2, 2>>, <<2, 2, 1, 0>>}
E23 == {<<1, 0, 2, 2>>, <<2, 2, 1, 0>>, <<1, 0, 3, 2>>, <<3, 2, 1, 0>>}
=============================================================================
