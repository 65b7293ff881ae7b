----------------------------- MODULE Promises -----------------------------
(* Promises and the futures that wait for them. A promise is resolved once: *)
(* by a value, or by being dropped. Every way of waiting for its future     *)
(* yields that value, or an error if it was dropped; a wait that ends early *)
(* for lack of time takes its time, and gives the future back if it can.    *)
EXTENDS Naturals, Sequences, FiniteSets
\* a promise: st "pend" | "later" (some other thread resolves it) | "res"; its outcome; whether its future is
\* "live", was read ("got") or dropped ("gone"); whether a waker of ours waits in it
Fresh(k) == [k |-> k, st |-> "pend", drop |-> FALSE, w |-> [ok |-> FALSE, v |-> 0], fut |-> "live", reg |-> FALSE]

Timed  == {"timeout", "ftimeout", "until", "poll"}
Keeps  == {"until", "poll"}                 \* ways that give an unresolved future back
OksOnly == {"expectok", "ok", "oktimeout"}
CTimed == {"expect", "timeout", "expectok", "oktimeout"}
Gives  == {"timeout", "results", "ok", "oktimeout"}
Long(ms) == ms >= 5000

Resolve(q, w) == [q EXCEPT !.st = "res", !.w = w]
Lose(q)       == [q EXCEPT !.st = "res", !.drop = TRUE]
Later(q, w, d) == [q EXCEPT !.st = "later", !.w = w, !.drop = d]
ReplyTells(q) == IF q.fut = "live" THEN "ok" ELSE "broken"
JoinTells(q)  == IF q.drop THEN {"gone"} ELSE IF q.fut = "gone" THEN {"ok", "broken"} ELSE {"ok"}

CanVal(q)  == q.st # "pend" /\ ~q.drop
CanLose(q) == q.st # "pend" /\ q.drop
CanTime(q, ms) == q.st = "pend" \/ (q.st = "later" /\ ~Long(ms))

\* what may come of waiting for q
Outcomes(q, how, ms) ==
  (IF CanVal(q) THEN {[r |-> "val", w |-> q.w]} ELSE {}) \cup
  (IF CanLose(q) THEN {[r |-> IF how = "wait" THEN "panic" ELSE "lost", w |-> [ok |-> FALSE, v |-> 0]]} ELSE {}) \cup
  (IF how \in Timed /\ CanTime(q, ms) THEN {[r |-> "timeout", w |-> [ok |-> FALSE, v |-> 0]]} ELSE {})
Waited(q, how, r) ==
  IF r # "timeout" THEN [q EXCEPT !.fut = "got", !.reg = FALSE]
  ELSE IF how \in Keeps THEN [q EXCEPT !.reg = (how = "poll")] ELSE [q EXCEPT !.fut = "gone", !.reg = FALSE]

\* waiting for several, one after the other: the first that fails ends it
Good(q, how) == CanVal(q) /\ (how \in OksOnly => q.w.ok)
Bad(q, how, ms) == CanLose(q) \/ (CanVal(q) /\ how \in OksOnly /\ ~q.w.ok) \/ (how \in CTimed /\ CanTime(q, ms))
AllGood(qs, how) == \A i \in 1..Len(qs) : Good(qs[i], how)
FirstBad(qs, how, ms) == \E i \in 1..Len(qs) : Bad(qs[i], how, ms) /\ \A j \in 1..(i-1) : Good(qs[j], how)
Yield(qs, how) == IF how \in Gives THEN [i \in 1..Len(qs) |-> qs[i].w] ELSE <<>>
Fails(how) == IF how = "timeout" THEN "err" ELSE "panic"
=============================================================================
