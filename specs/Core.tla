------------------------------- MODULE Core --------------------------------
(***************************************************************************)
(* The component runtime of kompact as a user sees it: components with a   *)
(* control queue, messages, port events and timeouts; lifecycle; blocking  *)
(* and spawned futures; faults and recovery; notifications; ports; timers; *)
(* ask/reply.  One action per observable event: a command or send issued   *)
(* by somebody, the begin and end of a handler, the steps of a future, the *)
(* resolution of a notification or reply future, and quiescence.           *)
(*                                                                         *)
(* Messages of different senders, and port events of different sources,    *)
(* are not ordered with respect to each other, nor are the different kinds *)
(* of user events: the specification leaves the scheduler that freedom.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Comps                   \* component ids, 1..n

VARIABLES
  cfg,     \* [thr: throughput, mm: message share, det: single-threaded world]
  life,    \* [Comps -> {"none","passive","active","closing","dead","faulty"}]
  busy,    \* [Comps -> [k, i]]  what the component is executing; k = "" if nothing
  blk,     \* [Comps -> [f, tr]] blocking future (0: none) and the pending transition
  ctlq,    \* [Comps -> Seq([cmd, s])] lifecycle commands not yet handled
  inbox,   \* [Comps -> Seq([k, s, i])] messages and asks
  pin,     \* [Comps -> Seq([p, s, i])] port events
  tq,      \* [Comps -> SUBSET [t, due]] expired timeouts
  stale,   \* components whose expired timeouts were cancelled while queued
  timers,  \* timer id -> [c, due, per]
  now,     \* manual clock
  futs,    \* future id -> [c, bl, st, p]   st in new, run, wait, done
  prom,    \* promise id -> "ok" / "err"    resolved promises
  edges,   \* set of [ch, sc, sp, dc, dp]: events triggered on port sp of sc go to port dp of dc
  notes,   \* notification id -> [c, cmd, st]  st in wait, done, told
  rec,     \* [Comps -> [tag, kind, st]] recovery: idle, call, act, done
  asks,    \* ask id -> [h, v, st]   st in open, held, replied, dropped, lost, told
  gone,    \* components all driver references to which were released
  shut,    \* [on, must, did]: the system is shutting down; components that must have ended when that is done;
           \*                  transitions that have happened
  ex,      \* [Comps -> [on, must, n, m]] accounting of the current execution
  fair     \* [Comps -> [0..3 -> [0..3 -> Nat]]] services of others since a port has been waiting

vars == <<cfg, life, busy, blk, ctlq, inbox, pin, tq, stale, timers, now, futs, prom, edges,
          notes, rec, asks, gone, shut, ex, fair>>

Ports == 0..3
NoRun == [k |-> "", i |-> 0]
NoBlk == [f |-> 0, tr |-> "none"]
Zero  == [p \in Ports |-> [q \in Ports |-> 0]]
EX0   == [on |-> FALSE, must |-> 0, n |-> 0, m |-> 0]

Init0(thr, mm, det) ==
  /\ cfg = [thr |-> thr, mm |-> mm, det |-> det]
  /\ life = [c \in Comps |-> "none"]
  /\ busy = [c \in Comps |-> NoRun]
  /\ blk = [c \in Comps |-> NoBlk]
  /\ ctlq = [c \in Comps |-> <<>>]
  /\ inbox = [c \in Comps |-> <<>>]
  /\ pin = [c \in Comps |-> <<>>]
  /\ tq = [c \in Comps |-> {}]
  /\ stale = {}
  /\ timers = <<>>
  /\ now = 0
  /\ futs = <<>>
  /\ prom = <<>>
  /\ edges = {}
  /\ notes = <<>>
  /\ rec = [c \in Comps |-> [tag |-> 0, kind |-> "", st |-> "idle"]]
  /\ asks = <<>>
  /\ gone = {}
  /\ shut = [on |-> FALSE, must |-> {}, did |-> {}]
  /\ ex = [c \in Comps |-> EX0]
  /\ fair = [c \in Comps |-> Zero]

Alive(c)   == life[c] \in {"passive", "active"}
Ended(c)   == life[c] \in {"dead", "faulty"}
Put(f, x, v) == (x :> v) @@ f       \* function update, growing the domain
Remove(s, n) == SubSeq(s, 1, n - 1) \o SubSeq(s, n + 1, Len(s))

(* what the component's own termination does to what it still had queued or held *)
Lose(c) == [a \in DOMAIN asks |->
              IF asks[a].h = c /\ asks[a].st \in {"open", "held"} THEN [asks[a] EXCEPT !.st = "lost"] ELSE asks[a]]

-----------------------------------------------------------------------------
\* creation, commands and sends
New(c) ==
  /\ life[c] = "none"
  /\ life' = [life EXCEPT ![c] = "passive"]
  /\ UNCHANGED <<cfg, busy, blk, ctlq, inbox, pin, tq, stale, timers, now, futs, prom, edges, notes, rec, asks, gone, shut, ex, fair>>

(* lifecycle command cmd for c given by s (0: the driver), with notification n (0: none) *)
Command(s, c, cmd, n) ==
  /\ ctlq' = IF Ended(c) THEN ctlq ELSE [ctlq EXCEPT ![c] = Append(@, [cmd |-> cmd, s |-> s])]
  /\ notes' = IF n = 0 THEN notes ELSE Put(notes, n, [c |-> c, cmd |-> cmd, st |-> "wait"])
  /\ UNCHANGED <<cfg, life, busy, blk, inbox, pin, tq, stale, timers, now, futs, prom, edges, rec, asks, gone, shut, ex, fair>>

Send(s, c, i) ==
  /\ inbox' = IF Ended(c) THEN inbox ELSE [inbox EXCEPT ![c] = Append(@, [k |-> "msg", s |-> s, i |-> i])]
  /\ UNCHANGED <<cfg, life, busy, blk, ctlq, pin, tq, stale, timers, now, futs, prom, edges, notes, rec, asks, gone, shut, ex, fair>>

(* c triggers event i on its port p: everyone connected there now gets it *)
Targets(c, p) == {e \in edges : e.sc = c /\ e.sp = p /\ ~Ended(e.dc)}
RECURSIVE Deliver(_, _, _)
Deliver(q, es, item) ==      \* es: set of edges, item: [s, i]
  IF es = {} THEN q
  ELSE LET e == CHOOSE x \in es : TRUE
       IN  Deliver([q EXCEPT ![e.dc] = Append(@, [p |-> e.dp, s |-> item.s, i |-> item.i])], es \ {e}, item)
Trigger(c, p, i) ==
  /\ pin' = Deliver(pin, Targets(c, p), [s |-> 4 * c + p, i |-> i])
  /\ UNCHANGED <<cfg, life, busy, blk, ctlq, inbox, tq, stale, timers, now, futs, prom, edges, notes, rec, asks, gone, shut, ex, fair>>

(* s triggers directly on port p of c, through a port reference *)
TriggerDirect(s, c, p, i) ==
  /\ pin' = IF Ended(c) THEN pin ELSE [pin EXCEPT ![c] = Append(@, [p |-> p, s |-> s, i |-> i])]
  /\ UNCHANGED <<cfg, life, busy, blk, ctlq, inbox, tq, stale, timers, now, futs, prom, edges, notes, rec, asks, gone, shut, ex, fair>>

(* a provides, b requires port p in {0,1}; required ports are numbered p+2 *)
Connect(ch, a, b, p, kind) ==
  /\ edges' = edges
       \union (IF kind \in {"", "two", "p2r"} THEN {[ch |-> ch, sc |-> a, sp |-> p, dc |-> b, dp |-> p + 2]} ELSE {})
       \union (IF kind \in {"", "two", "r2p"} THEN {[ch |-> ch, sc |-> b, sp |-> p + 2, dc |-> a, dp |-> p]} ELSE {})
  /\ UNCHANGED <<cfg, life, busy, blk, ctlq, inbox, pin, tq, stale, timers, now, futs, prom, notes, rec, asks, gone, shut, ex, fair>>

\* an end of the channel cannot be accessed any more
Broken(ch) == \E e \in edges : e.ch = ch /\ "faulty" \in {life[e.sc], life[e.dc]}
Disconnect(ch) ==
  /\ edges' = {e \in edges : e.ch # ch}
  /\ UNCHANGED <<cfg, life, busy, blk, ctlq, inbox, pin, tq, stale, timers, now, futs, prom, notes, rec, asks, gone, shut, ex, fair>>

SetRecovery(c, tag) ==
  /\ rec' = IF rec[c].st = "idle" THEN [rec EXCEPT ![c].tag = tag] ELSE rec
  /\ UNCHANGED <<cfg, life, busy, blk, ctlq, inbox, pin, tq, stale, timers, now, futs, prom, edges, notes, asks, gone, shut, ex, fair>>

Release(c) ==
  /\ gone' = gone \union {c}
  /\ UNCHANGED <<cfg, life, busy, blk, ctlq, inbox, pin, tq, stale, timers, now, futs, prom, edges, notes, rec, asks, shut, ex, fair>>

(* the driver shuts the system down: every component that was started and lives is killed, and only then is it done *)
ShutdownBegin ==
  /\ shut' = [shut EXCEPT !.on = TRUE, !.must = {c \in Comps : life[c] = "active" \/ (life[c] = "passive" /\ <<c, "start">> \in shut.did)}]
  /\ UNCHANGED <<cfg, life, busy, blk, ctlq, inbox, pin, tq, stale, timers, now, futs, prom, edges, notes, rec, asks, gone, ex, fair>>
ShutdownEnd(r) ==
  /\ r = "ok" /\ shut.on
  /\ \A c \in shut.must : Ended(c)
  /\ UNCHANGED vars

-----------------------------------------------------------------------------
\* timers
Schedule(c, t, d, per) ==
  /\ busy[c].k # ""
  /\ timers' = Put(timers, t, [c |-> c, due |-> now + d, per |-> per])
  /\ UNCHANGED <<cfg, life, busy, blk, ctlq, inbox, pin, tq, stale, now, futs, prom, edges, notes, rec, asks, gone, shut, ex, fair>>

Cancel(c, t) ==
  /\ busy[c].k # ""
  /\ timers' = [x \in DOMAIN timers \ {t} |-> timers[x]]
  /\ tq' = [tq EXCEPT ![c] = {x \in @ : x.t # t}]
  /\ stale' = IF (\E x \in tq[c] : x.t = t) \/ (t \in DOMAIN timers /\ timers[t].due <= now)
              THEN stale \union {c} ELSE stale
  /\ UNCHANGED <<cfg, life, busy, blk, ctlq, inbox, pin, now, futs, prom, edges, notes, rec, asks, gone, shut, ex, fair>>

(* expirations of timer t in (now, then] *)
Expired(t, then) ==
  LET x == timers[t] IN
  IF x.due > then THEN {}
  ELSE IF x.per = 0 THEN {[t |-> t, due |-> x.due]}
  ELSE {[t |-> t, due |-> x.due + k * x.per] : k \in 0..((then - x.due) \div x.per)}
Advance(d) ==
  LET then == now + d IN
  /\ now' = then
  /\ tq' = [c \in Comps |-> IF Ended(c) THEN {} ELSE
                tq[c] \union UNION {IF timers[t].c = c THEN Expired(t, then) ELSE {} : t \in DOMAIN timers}]
  /\ timers' = [t \in {x \in DOMAIN timers : timers[x].per > 0 \/ timers[x].due > then} |->
                  IF timers[t].due > then THEN timers[t]
                  ELSE [timers[t] EXCEPT !.due = @ + timers[t].per * (((then - @) \div timers[t].per) + 1)]]
  /\ UNCHANGED <<cfg, life, busy, blk, ctlq, inbox, pin, stale, futs, prom, edges, notes, rec, asks, gone, shut, ex, fair>>

-----------------------------------------------------------------------------
\* execution accounting (deterministic world)
ExecBegin(c) ==
  /\ ~ex[c].on
  /\ busy[c].k = ""
  /\ ex' = [ex EXCEPT ![c] = [on |-> TRUE, must |-> Len(ctlq[c]), n |-> 0, m |-> 0]]
  /\ UNCHANGED <<cfg, life, busy, blk, ctlq, inbox, pin, tq, stale, timers, now, futs, prom, edges, notes, rec, asks, gone, shut, fair>>
ExecEnd(c) ==
  /\ ex[c].on
  /\ busy[c].k = ""
  /\ ex' = [ex EXCEPT ![c].on = FALSE]
  /\ UNCHANGED <<cfg, life, busy, blk, ctlq, inbox, pin, tq, stale, timers, now, futs, prom, edges, notes, rec, asks, gone, shut, fair>>

(* may c handle a user event now, as far as batching is concerned? *)
BatchOK(c) == cfg.det => /\ ex[c].on
                         /\ ex[c].must = 0          \* pending lifecycle commands come first
                         /\ ex[c].n < cfg.thr       \* at most `throughput` events per execution
(* ... a message beyond the message share?  Only once the ports have had a turn (m = -1) or had nothing *)
ShareOK(c) == (cfg.det /\ ex[c].m >= cfg.mm) => pin[c] = <<>>

-----------------------------------------------------------------------------
\* handlers
CanRun(c) == /\ busy[c].k = ""
             /\ blk[c].f = 0
             /\ rec[c].st = "idle"
             /\ (cfg.det => ex[c].on)
Ready(c)  == CanRun(c) /\ life[c] = "active" /\ BatchOK(c)

(* position of the oldest element of a queue that has the given properties *)
FirstCtl(c, cmd) == {n \in 1..Len(ctlq[c]) : ctlq[c][n].cmd = cmd
                        /\ \A m \in 1..(n - 1) : ~cfg.det /\ ctlq[c][m].s # ctlq[c][n].s}

BeginCommand(c, cmd) ==
  /\ CanRun(c)
  /\ \/ /\ Alive(c)
        /\ \E n \in FirstCtl(c, cmd) :
              /\ ctlq' = [ctlq EXCEPT ![c] = Remove(@, n)]
              /\ ex' = [ex EXCEPT ![c].must = IF @ > 0 THEN @ - 1 ELSE 0]
              /\ busy' = [busy EXCEPT ![c] = [k |-> cmd, i |-> 0]]
     \/ /\ life[c] = "closing" /\ cmd = "kill"
        /\ busy' = [busy EXCEPT ![c] = [k |-> "killed", i |-> 0]]
        /\ UNCHANGED <<ctlq, ex>>
     \/ /\ shut.on /\ Alive(c) /\ cmd = "kill"
        /\ busy' = [busy EXCEPT ![c] = [k |-> cmd, i |-> 0]]
        /\ UNCHANGED <<ctlq, ex>>
  /\ UNCHANGED <<cfg, life, blk, inbox, pin, tq, stale, timers, now, futs, prom, edges, notes, rec, asks, gone, shut, fair>>

BeginMessage(c, k, s, i) ==
  /\ Ready(c)
  /\ ShareOK(c)
  /\ \E n \in 1..Len(inbox[c]) :
        /\ inbox[c][n] = [k |-> k, s |-> s, i |-> i]
        /\ \A m \in 1..(n - 1) : inbox[c][m].s # s
        /\ inbox' = [inbox EXCEPT ![c] = Remove(@, n)]
  /\ busy' = [busy EXCEPT ![c] = [k |-> k, i |-> i]]
  /\ ex' = IF ~cfg.det THEN ex
            ELSE [ex EXCEPT ![c].n = @ + 1, ![c].m = IF @ < 0 \/ pin[c] = <<>> THEN -1 ELSE @ + 1]
  /\ asks' = (IF k = "ask" /\ i \in DOMAIN asks THEN [asks EXCEPT ![i].st = "held"] ELSE asks)
  /\ UNCHANGED <<cfg, life, blk, ctlq, pin, tq, stale, timers, now, futs, prom, edges, notes, rec, gone, shut, fair>>

Waiting(c, p) == \E n \in 1..Len(pin[c]) : pin[c][n].p = p
BeginPort(c, p, s, i) ==
  /\ Ready(c)
  /\ \E n \in 1..Len(pin[c]) :
        /\ pin[c][n] = [p |-> p, s |-> s, i |-> i]
        /\ \A m \in 1..(n - 1) : ~(pin[c][m].s = s /\ pin[c][m].p = p)
        /\ pin' = [pin EXCEPT ![c] = Remove(@, n)]
  /\ busy' = [busy EXCEPT ![c] = [k |-> "port", i |-> i]]
  /\ ex' = IF ~cfg.det THEN ex ELSE [ex EXCEPT ![c].n = @ + 1, ![c].m = -1]
  /\ fair' = IF ~cfg.det THEN fair ELSE [fair EXCEPT ![c] = [q \in Ports |->
                 IF q = p \/ ~Waiting(c, q) THEN Zero[q] ELSE [@[q] EXCEPT ![p] = @ + 1]]]
  /\ cfg.det => \A q \in Ports : fair'[c][q][p] <= 2       \* served in turn
  /\ UNCHANGED <<cfg, life, blk, ctlq, inbox, tq, stale, timers, now, futs, prom, edges, notes, rec, asks, gone, shut>>

BeginTimeout(c, t) ==
  /\ Ready(c)
  /\ \E x \in tq[c] :
        /\ x.t = t
        /\ \A y \in tq[c] : y.due >= x.due
        /\ tq' = [tq EXCEPT ![c] = @ \ {x}]
  /\ busy' = [busy EXCEPT ![c] = [k |-> "tmo", i |-> t]]
  /\ ex' = IF ~cfg.det THEN ex ELSE [ex EXCEPT ![c].n = @ + 1]
  /\ UNCHANGED <<cfg, life, blk, ctlq, inbox, pin, stale, timers, now, futs, prom, edges, notes, rec, asks, gone, shut, fair>>

-----------------------------------------------------------------------------
\* ends of handlers and futures
(* transition tr of c happens *)
LifeAfter(c, tr) == CASE tr = "start" -> "active"
                      [] tr = "stop"  -> "passive"
                      [] tr \in {"kill", "killed"} -> "dead"
                      [] OTHER -> life[c]
NotesAfter(c, tr) == [n \in DOMAIN notes |->
     IF notes[n].c = c /\ notes[n].st = "wait"
        /\ notes[n].cmd = (IF tr = "killed" THEN "kill" ELSE tr)
     THEN [notes[n] EXCEPT !.st = "done"] ELSE notes[n]]

(* the component ends as l \in {"dead","faulty"}: whatever is queued is void *)
EndAs(c, l, kind) ==
  /\ life' = [life EXCEPT ![c] = l]
  /\ blk' = [blk EXCEPT ![c] = NoBlk]
  /\ ctlq' = [ctlq EXCEPT ![c] = <<>>]
  /\ inbox' = [inbox EXCEPT ![c] = <<>>]
  /\ pin' = [pin EXCEPT ![c] = <<>>]
  /\ tq' = [tq EXCEPT ![c] = {}]
  /\ timers' = [t \in {x \in DOMAIN timers : timers[x].c # c} |-> timers[t]]
  /\ asks' = Lose(c)
  /\ rec' = IF l = "faulty" /\ rec[c].st = "idle"
            THEN [rec EXCEPT ![c] = [tag |-> @.tag, kind |-> kind, st |-> IF @.tag = 0 THEN "done" ELSE "call"]]
            ELSE rec

(* outcome r of a handler or future; tr is the lifecycle transition it was to complete *)
Outcome(c, tr, r, f) ==
  CASE r \in {"ok", "benign"} /\ tr \notin {"kill", "killed"} ->
         /\ life' = [life EXCEPT ![c] = LifeAfter(c, tr)]
         /\ notes' = NotesAfter(c, tr)
         /\ blk' = [blk EXCEPT ![c] = NoBlk]
         /\ UNCHANGED <<ctlq, inbox, pin, tq, timers, asks, rec>>
    [] r = "block" /\ tr # "killed" ->
         /\ blk' = [blk EXCEPT ![c] = [f |-> f, tr |-> tr]]
         /\ UNCHANGED <<life, notes, ctlq, inbox, pin, tq, timers, asks, rec>>
    [] r = "shutdown" /\ tr \notin {"kill", "killed"} ->
         /\ life' = [life EXCEPT ![c] = "closing"]
         /\ blk' = [blk EXCEPT ![c] = NoBlk]
         /\ UNCHANGED <<notes, ctlq, inbox, pin, tq, timers, asks, rec>>
    [] r = "unrec" \/ (tr \in {"kill", "killed"} /\ r \in {"ok", "benign", "shutdown"})
                   \/ (tr = "killed" /\ r = "recov") ->
         /\ EndAs(c, "dead", "")
         /\ notes' = NotesAfter(c, "kill")
    [] r = "panic" \/ (r = "recov" /\ tr # "killed") \/ (r = "block" /\ tr = "killed") ->
         /\ EndAs(c, "faulty", IF r = "block" THEN "panic" ELSE r)   \* a shutdown handler must not block
         /\ notes' = notes

DidAfter(c, tr, r) == IF ~cfg.det /\ r \in {"ok", "benign"} /\ tr \in {"start", "stop"}
                      THEN [shut EXCEPT !.did = @ \union {<<c, tr>>}] ELSE shut
NewFut(c, f, bl) == Put(futs, f, [c |-> c, bl |-> bl, st |-> "new", p |-> 0])

HandlerEnd(c, k, i, r, f) ==
  /\ busy[c] = [k |-> IF k = "kill" /\ busy[c].k = "killed" THEN "killed" ELSE k, i |-> i]
  /\ busy' = [busy EXCEPT ![c] = NoRun]
  /\ Outcome(c, busy[c].k, r, f)
  /\ shut' = DidAfter(c, busy[c].k, r)
  /\ futs' = IF r = "block" THEN NewFut(c, f, TRUE) ELSE futs
  /\ UNCHANGED <<cfg, stale, now, prom, edges, gone, ex, fair>>

Spawn(c, f) ==
  /\ busy[c].k # ""
  /\ futs' = NewFut(c, f, FALSE)
  /\ UNCHANGED <<cfg, life, busy, blk, ctlq, inbox, pin, tq, stale, timers, now, prom, edges, notes, rec, asks, gone, shut, ex, fair>>

(* may future f of c run a segment now?  A blocking one exactly while it blocks, others only while nothing blocks *)
FutCanRun(c, f) ==
  /\ f \in DOMAIN futs /\ futs[f].c = c
  /\ busy[c].k = ""
  /\ Alive(c)
  /\ rec[c].st = "idle"
  /\ blk[c].f = (IF futs[f].bl THEN f ELSE 0)

FutBegin(c, f) ==
  /\ FutCanRun(c, f) /\ futs[f].st = "new"
  /\ futs' = [futs EXCEPT ![f].st = "run"]
  /\ busy' = [busy EXCEPT ![c] = [k |-> "fut", i |-> f]]
  /\ UNCHANGED <<cfg, life, blk, ctlq, inbox, pin, tq, stale, timers, now, prom, edges, notes, rec, asks, gone, shut, ex, fair>>
FutWait(c, f, p) ==
  /\ busy[c] = [k |-> "fut", i |-> f]
  /\ futs' = [futs EXCEPT ![f].st = "wait", ![f].p = p]
  /\ busy' = [busy EXCEPT ![c] = NoRun]
  /\ UNCHANGED <<cfg, life, blk, ctlq, inbox, pin, tq, stale, timers, now, prom, edges, notes, rec, asks, gone, shut, ex, fair>>
FutResume(c, f, p, r) ==
  /\ FutCanRun(c, f) /\ futs[f].st = "wait" /\ futs[f].p = p
  /\ p \in DOMAIN prom /\ prom[p] = r
  /\ futs' = [futs EXCEPT ![f].st = "run"]
  /\ busy' = [busy EXCEPT ![c] = [k |-> "fut", i |-> f]]
  /\ UNCHANGED <<cfg, life, blk, ctlq, inbox, pin, tq, stale, timers, now, prom, edges, notes, rec, asks, gone, shut, ex, fair>>
FutEnd(c, f, r, f2) ==
  /\ busy[c] = [k |-> "fut", i |-> f]
  /\ busy' = [busy EXCEPT ![c] = NoRun]
  /\ Outcome(c, IF futs[f].bl THEN blk[c].tr ELSE "none", r, f2)
  /\ futs' = IF r = "block" THEN Put([futs EXCEPT ![f].st = "done"], f2, [c |-> c, bl |-> TRUE, st |-> "new", p |-> 0])
             ELSE [futs EXCEPT ![f].st = "done"]
  /\ shut' = DidAfter(c, IF futs[f].bl THEN blk[c].tr ELSE "none", r)
  /\ UNCHANGED <<cfg, stale, now, prom, edges, gone, ex, fair>>

Fire(p, r) ==
  /\ p \notin DOMAIN prom
  /\ prom' = Put(prom, p, r)
  /\ UNCHANGED <<cfg, life, busy, blk, ctlq, inbox, pin, tq, stale, timers, now, futs, edges, notes, rec, asks, gone, shut, ex, fair>>

-----------------------------------------------------------------------------
\* recovery
RecoveryCalled(c, tag, kind) ==
  /\ rec[c].st = "call" /\ rec[c].tag = tag /\ rec[c].kind = kind /\ life[c] = "faulty"
  /\ rec' = [rec EXCEPT ![c].st = "act"]
  /\ UNCHANGED <<cfg, life, busy, blk, ctlq, inbox, pin, tq, stale, timers, now, futs, prom, edges, notes, asks, gone, shut, ex, fair>>
RecoveryActs(c, tag) ==
  /\ rec[c].st = "act" /\ rec[c].tag = tag
  /\ rec' = [rec EXCEPT ![c].st = "done"]
  /\ UNCHANGED <<cfg, life, busy, blk, ctlq, inbox, pin, tq, stale, timers, now, futs, prom, edges, notes, asks, gone, shut, ex, fair>>

-----------------------------------------------------------------------------
\* notifications and replies
Notified(n, r) ==
  /\ n \in DOMAIN notes
  /\ \/ r = "ok"  /\ notes[n].st = "done"
     \* with several threads a request may overtake the news of an earlier transition of the same kind
     \/ r = "ok"  /\ notes[n].st = "wait" /\ ~cfg.det
                  /\ \/ <<notes[n].c, notes[n].cmd>> \in shut.did
                     \/ notes[n].cmd = "kill" /\ life[notes[n].c] = "dead"
     \/ r = "err" /\ notes[n].st \in {"wait", "done"} /\ Ended(notes[n].c)
  /\ notes' = [notes EXCEPT ![n].st = "told"]
  /\ UNCHANGED <<cfg, life, busy, blk, ctlq, inbox, pin, tq, stale, timers, now, futs, prom, edges, rec, asks, gone, shut, ex, fair>>

Ask(s, a, c) ==
  /\ inbox' = IF Ended(c) THEN inbox ELSE [inbox EXCEPT ![c] = Append(@, [k |-> "ask", s |-> s, i |-> a])]
  /\ asks' = Put(asks, a, [h |-> c, v |-> 0, st |-> IF Ended(c) THEN "lost" ELSE "open"])
  /\ UNCHANGED <<cfg, life, busy, blk, ctlq, pin, tq, stale, timers, now, futs, prom, edges, notes, rec, gone, shut, ex, fair>>
Reply(c, a, v) ==
  /\ a \in DOMAIN asks /\ asks[a].h = c /\ asks[a].st = "held" /\ busy[c].k # ""
  /\ asks' = [asks EXCEPT ![a].v = v, ![a].st = "replied"]
  /\ UNCHANGED <<cfg, life, busy, blk, ctlq, inbox, pin, tq, stale, timers, now, futs, prom, edges, notes, rec, gone, shut, ex, fair>>
DropAsk(c, a) ==
  /\ a \in DOMAIN asks /\ asks[a].h = c /\ asks[a].st = "held" /\ busy[c].k # ""
  /\ asks' = [asks EXCEPT ![a].st = "dropped"]
  /\ UNCHANGED <<cfg, life, busy, blk, ctlq, inbox, pin, tq, stale, timers, now, futs, prom, edges, notes, rec, gone, shut, ex, fair>>
Forward(c, a, d) ==
  /\ a \in DOMAIN asks /\ asks[a].h = c /\ asks[a].st = "held" /\ busy[c].k # ""
  /\ asks' = [asks EXCEPT ![a].h = d, ![a].st = IF Ended(d) THEN "lost" ELSE "open"]
  /\ inbox' = IF Ended(d) THEN inbox ELSE [inbox EXCEPT ![d] = Append(@, [k |-> "ask", s |-> c, i |-> a])]
  /\ UNCHANGED <<cfg, life, busy, blk, ctlq, pin, tq, stale, timers, now, futs, prom, edges, notes, rec, gone, shut, ex, fair>>
Answered(a, r, v) ==
  /\ a \in DOMAIN asks
  /\ \/ r = "ok"  /\ asks[a].st = "replied" /\ asks[a].v = v
     \/ r = "err" /\ asks[a].st \in {"dropped", "lost"}
  /\ asks' = [asks EXCEPT ![a].st = "told"]
  /\ UNCHANGED <<cfg, life, busy, blk, ctlq, inbox, pin, tq, stale, timers, now, futs, prom, edges, notes, rec, gone, shut, ex, fair>>

-----------------------------------------------------------------------------
\* quiescence: nothing left that could be done
Suspended(f) == \/ futs[f].st = "done"
                \/ futs[f].st = "wait" /\ futs[f].p \notin DOMAIN prom
QuietComp(c) ==
  /\ busy[c].k = ""
  /\ ~ex[c].on
  /\ life[c] # "closing"
  /\ rec[c].st \in {"idle", "done"}
  /\ Alive(c) =>
       IF blk[c].f # 0
       THEN Suspended(blk[c].f)
       ELSE /\ ctlq[c] = <<>>
            /\ \A f \in DOMAIN futs : futs[f].c = c => Suspended(f)
            /\ life[c] = "active" => /\ inbox[c] = <<>> /\ pin[c] = <<>> /\ tq[c] = {}
(* asks of an ended component that nobody refers to any more are certainly lost *)
Deallocated(c) == c \in gone /\ Ended(c) /\ \A f \in DOMAIN futs : futs[f].c # c
Quiet ==
  /\ \A c \in Comps : QuietComp(c)
  /\ \A n \in DOMAIN notes : notes[n].st = "done" => ~cfg.det /\ Ended(notes[n].c)
  /\ \A a \in DOMAIN asks : asks[a].st \notin {"replied", "dropped"}
  /\ \A a \in DOMAIN asks : asks[a].st = "lost" => ~Deallocated(asks[a].h)

(* what the component's status flags must say when nothing is running *)
Status(c) == IF life[c] \in {"dead", "faulty"} THEN life[c]
             ELSE IF blk[c].f # 0 \/ life[c] # "active" THEN "other" ELSE "active"
(* a component still being scheduled at quiescence must at least have something queued *)
MayIdle(c) == /\ life[c] = "passive"
              /\ inbox[c] # <<>> \/ pin[c] # <<>> \/ tq[c] # {} \/ c \in stale
=============================================================================
