------------------------------- MODULE Sched --------------------------------
(***************************************************************************)
(* The scheduling protocol of one component at the granularity of its      *)
(* atomic steps: senders count up, put the message into the queue and      *)
(* schedule if they were first; executors take the component off the run   *)
(* queue, lock it, handle up to Thr messages, count down and reschedule;   *)
(* a handler may block on a future, whose waker schedules unconditionally. *)
(*                                                                         *)
(* Checked: no two executors are ever inside, the counter never goes       *)
(* negative, no wakeup is lost.  Variant # "real" are mutations of the     *)
(* protocol which must be found out (they show the model is not vacuous).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Senders, Execs, K, Thr,
          Blocking,     \* set of <<s, n>>: messages whose handler blocks on the future
          Variant

VARIABLES work, flag, q, runq, lock, sp, ep, fired, armed, handled, waker
vars == <<work, flag, q, runq, lock, sp, ep, fired, armed, handled, waker>>

Idle == [pc |-> "idle", n |-> 0]
Init ==
  /\ work = 0 /\ flag = "active" /\ q = <<>> /\ runq = 0 /\ lock = 0
  /\ sp = [s \in Senders |-> [pc |-> "inc", n |-> 1, go |-> FALSE]]
  /\ ep = [e \in Execs |-> Idle]
  /\ fired = FALSE /\ armed = FALSE /\ handled = {} /\ waker = "wait"

\* ---- senders
SInc(s) ==
  /\ sp[s].pc = "inc" /\ sp[s].n <= K
  /\ Variant = "pushfirst" => \E i \in 1..Len(q) : q[i] = <<s, sp[s].n>>
  /\ work' = work + 1
  /\ sp' = [sp EXCEPT ![s].pc = IF Variant = "pushfirst" THEN "sched" ELSE "push", ![s].go = (work = 0 /\ flag = "active")]
  /\ UNCHANGED <<flag, q, runq, lock, ep, fired, armed, handled, waker>>
SPushFirst(s) ==
  /\ Variant = "pushfirst" /\ sp[s].pc = "inc" /\ sp[s].n <= K
  /\ ~\E i \in 1..Len(q) : q[i] = <<s, sp[s].n>>
  /\ <<s, sp[s].n>> \notin handled
  /\ q' = Append(q, <<s, sp[s].n>>)
  /\ UNCHANGED <<work, flag, runq, lock, sp, ep, fired, armed, handled, waker>>
SPush(s) ==
  /\ sp[s].pc = "push"
  /\ q' = Append(q, <<s, sp[s].n>>)
  /\ sp' = [sp EXCEPT ![s].pc = "sched"]
  /\ UNCHANGED <<work, flag, runq, lock, ep, fired, armed, handled, waker>>
SSched(s) ==
  /\ sp[s].pc = "sched"
  /\ runq' = IF sp[s].go THEN runq + 1 ELSE runq
  /\ sp' = [sp EXCEPT ![s] = [pc |-> "inc", n |-> @.n + 1, go |-> FALSE]]
  /\ UNCHANGED <<work, flag, q, lock, ep, fired, armed, handled, waker>>

\* ---- executors
EPop(e) ==
  /\ ep[e].pc = "idle" /\ runq > 0
  /\ runq' = runq - 1
  /\ ep' = [ep EXCEPT ![e] = [pc |-> "lock", n |-> 0]]
  /\ UNCHANGED <<work, flag, q, lock, sp, fired, armed, handled, waker>>
ELock(e) ==
  /\ ep[e].pc = "lock"
  /\ \/ lock = 0 /\ lock' = e
     \/ Variant = "nolock" /\ lock' = lock
  /\ ep' = [ep EXCEPT ![e].pc = IF flag = "blocking" THEN "poll" ELSE "run"]
  /\ UNCHANGED <<work, flag, q, runq, sp, fired, armed, handled, waker>>
\* poll of the blocking future on behalf of an execution that found the component blocked
EPoll(e) ==
  /\ ep[e].pc = "poll"
  /\ IF fired THEN /\ flag' = "active"
                   /\ ep' = [ep EXCEPT ![e] = [pc |-> IF Variant = "noresume" THEN "out" ELSE "resume", n |-> 0]]
                   /\ armed' = armed
              ELSE /\ armed' = TRUE
                   /\ flag' = flag
                   /\ ep' = [ep EXCEPT ![e] = [pc |-> "out", n |-> 0]]
  /\ UNCHANGED <<work, q, runq, lock, sp, fired, handled, waker>>
EHandle(e) ==
  /\ ep[e].pc = "run" /\ ep[e].n < Thr /\ q # <<>>
  /\ q' = Tail(q)
  /\ handled' = handled \union {Head(q)}
  /\ IF Head(q) \in Blocking
     THEN flag' = "blocking" /\ ep' = [ep EXCEPT ![e] = [pc |-> "poll2", n |-> @.n + 1]]
     ELSE flag' = flag /\ ep' = [ep EXCEPT ![e].n = @ + 1]
  /\ UNCHANGED <<work, runq, lock, sp, fired, armed, waker>>
\* first poll, right after the handler: the work done so far is counted down only after it
EPoll2(e) ==
  /\ ep[e].pc = "poll2"
  /\ IF fired THEN /\ flag' = "active"
                   /\ ep' = [ep EXCEPT ![e].pc = "dec2"]
                   /\ armed' = armed
              ELSE /\ armed' = (Variant # "nopoll")
                   /\ flag' = flag
                   /\ ep' = [ep EXCEPT ![e].pc = "dec3"]
  /\ UNCHANGED <<work, q, runq, lock, sp, fired, handled, waker>>
EDec(e) ==
  /\ \/ ep[e].pc = "run" /\ (ep[e].n = Thr \/ q = <<>>)
     \/ ep[e].pc \in {"dec2", "dec3"}
  /\ work' = work - ep[e].n
  /\ ep' = [ep EXCEPT ![e] = [n |-> 0, pc |->
        CASE ep[e].pc = "dec3" -> "out"
          [] ep[e].pc = "dec2" -> IF work' > 0 THEN "resume" ELSE "out"
          [] OTHER -> IF work' > 0 /\ Variant # "noresched" THEN "again" ELSE "out"]]
  /\ UNCHANGED <<flag, q, runq, lock, sp, fired, armed, handled, waker>>
EOut(e) ==
  /\ ep[e].pc \in {"out", "again", "resume"}
  /\ lock' = IF lock = e THEN 0 ELSE lock
  /\ runq' = runq
  /\ ep' = [ep EXCEPT ![e].pc = CASE ep[e].pc = "out" -> "idle" [] ep[e].pc = "again" -> "put" [] OTHER -> "lock"]
  /\ UNCHANGED <<work, flag, q, sp, fired, armed, handled, waker>>
EPut(e) ==
  /\ ep[e].pc = "put"
  /\ runq' = runq + 1
  /\ ep' = [ep EXCEPT ![e] = Idle]
  /\ UNCHANGED <<work, flag, q, lock, sp, fired, armed, handled, waker>>

\* ---- the promise is fulfilled at some time, and wakes whoever polled before
WFire ==
  /\ waker = "wait" /\ Blocking # {}
  /\ fired' = TRUE
  /\ waker' = IF armed THEN "wake" ELSE "done"
  /\ UNCHANGED <<work, flag, q, runq, lock, sp, ep, armed, handled>>
WWake ==
  /\ waker = "wake"
  /\ runq' = runq + 1
  /\ waker' = "done"
  /\ UNCHANGED <<work, flag, q, lock, sp, ep, fired, armed, handled>>

Next == \/ \E s \in Senders : SInc(s) \/ SPushFirst(s) \/ SPush(s) \/ SSched(s)
        \/ \E e \in Execs : EPop(e) \/ ELock(e) \/ EPoll(e) \/ EHandle(e) \/ EPoll2(e) \/ EDec(e) \/ EOut(e) \/ EPut(e)
        \/ WFire \/ WWake
\* an executor that finds work on the run queue takes it sooner or later, and no thread is suspended for ever
Fair == /\ WF_vars(WFire) /\ WF_vars(WWake)
        /\ \A s \in Senders : WF_vars(SInc(s) \/ SPushFirst(s) \/ SPush(s) \/ SSched(s))
        /\ \A e \in Execs : SF_vars(EPop(e)) /\ SF_vars(ELock(e))
                            /\ WF_vars(EPoll(e) \/ EHandle(e) \/ EPoll2(e) \/ EDec(e) \/ EOut(e) \/ EPut(e))
Spec == Init /\ [][Next]_vars /\ Fair

-----------------------------------------------------------------------------
All == Senders \X (1..K)
Inside == {e \in Execs : ep[e].pc \in {"run", "poll", "poll2", "dec2", "dec3"}}
Mutex == Cardinality(Inside) <= 1
NonNegative == work >= 0
\* nothing left to do although something is queued: a lost wakeup
Quiescent == /\ \A s \in Senders : sp[s].pc = "inc" /\ sp[s].n > K
             /\ \A e \in Execs : ep[e].pc = "idle"
             /\ runq = 0 /\ waker # "wake"
             /\ (Blocking # {} => waker = "done")
NoLostWakeup == Quiescent => q = <<>> /\ flag = "active"
IdleIsIdle == Quiescent => work = 0
\* a sender's messages are handled in order (the queue is FIFO)
SenderOrder == \A s \in Senders, n \in 1..K : <<s, n>> \in handled => \A m \in 1..(n - 1) : <<s, m>> \in handled
AllHandled == <>(handled = All)
NoBlock == {}
Block1 == {<<1, 1>>}
=============================================================================
