----------------------------- MODULE PromisesMC -----------------------------
(* Every history of N promises: what is read is what was given, a reply is  *)
(* told the truth, a resolved promise leaves nobody waiting.                *)
EXTENDS Promises, TLC
CONSTANTS N, VARIANT
VARIABLES ps, said, saw, timed
vars == <<ps, said, saw, timed>>
\* said: what the replier of p was told; saw: what the waiter saw; timed: a wait ended for lack of time
Val(p, ok) == [ok |-> ok, v |-> p]
Init == ps = [p \in 1..N |-> Fresh("r")] /\ said = [p \in 1..N |-> "no"] /\ saw = [p \in 1..N |-> <<>>] /\ timed = [p \in 1..N |-> FALSE]
Ful(p) == /\ ps[p].st = "pend"
          /\ \E ok \in BOOLEAN : ps' = [ps EXCEPT ![p] = Resolve(@, Val(p, ok))]
          /\ said' = [said EXCEPT ![p] = IF VARIANT = "lies" THEN "ok" ELSE ReplyTells(ps[p])]
          /\ UNCHANGED <<saw, timed>>
Drop(p) == ps[p].st = "pend" /\ ps' = [ps EXCEPT ![p] = Lose(@)] /\ UNCHANGED <<said, saw, timed>>
Give(p) == ps[p].st = "pend" /\ \E ok \in BOOLEAN, d \in BOOLEAN : ps' = [ps EXCEPT ![p] = Later(@, Val(p, ok), d)] /\ UNCHANGED <<said, saw, timed>>
Join(p) == /\ ps[p].st = "later"
           /\ \E r \in JoinTells(ps[p]) : said' = [said EXCEPT ![p] = r]
           /\ ps' = [ps EXCEPT ![p].st = "res"] /\ UNCHANGED <<saw, timed>>
DropF(p) == ps[p].fut = "live" /\ ps' = [ps EXCEPT ![p].fut = "gone"] /\ UNCHANGED <<said, saw, timed>>
Wait(p) == /\ ps[p].fut = "live"
           /\ \E how \in {"wait", "fwait", "timeout", "until", "poll"} : \E o \in Outcomes(ps[p], how, 10) :
                /\ ps' = [ps EXCEPT ![p] = IF VARIANT = "keeps" /\ o.r = "val" THEN @ ELSE Waited(@, how, o.r)]
                /\ saw' = IF o.r = "timeout" THEN saw ELSE [saw EXCEPT ![p] = Append(@, o)]
                /\ timed' = [timed EXCEPT ![p] = @ \/ o.r = "timeout"]
           /\ UNCHANGED said
Orders == {s \in UNION {[1..k -> 1..N] : k \in 1..N} : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
Coll == \E s \in Orders, how \in {"expect", "timeout", "results", "expectok", "ok", "oktimeout"} :
        LET qs == [i \in DOMAIN s |-> ps[s[i]]] IN
        /\ \A i \in DOMAIN s : qs[i].fut = "live"
        /\ \/ /\ AllGood(qs, how)
              /\ ps' = [p \in 1..N |-> IF \E i \in DOMAIN s : s[i] = p THEN [ps[p] EXCEPT !.fut = "got"] ELSE ps[p]]
              /\ saw' = [p \in 1..N |-> IF how \in Gives /\ \E i \in DOMAIN s : s[i] = p
                                        THEN Append(saw[p], [r |-> "val", w |-> Yield(qs, how)[CHOOSE i \in DOMAIN s : s[i] = p]]) ELSE saw[p]]
           \/ /\ FirstBad(qs, how, 10)
              /\ ps' = [p \in 1..N |-> IF \E i \in DOMAIN s : s[i] = p THEN [ps[p] EXCEPT !.fut = "gone"] ELSE ps[p]]
              /\ saw' = saw
        /\ UNCHANGED <<said, timed>>
Next == Coll \/ \E p \in 1..N : Ful(p) \/ Drop(p) \/ Give(p) \/ Join(p) \/ DropF(p) \/ Wait(p)
Spec == Init /\ [][Next]_vars
Bound == \A p \in 1..N : Len(saw[p]) <= 2
Once == \A p \in 1..N : Len(saw[p]) <= 1
Right == \A p \in 1..N : \A i \in 1..Len(saw[p]) : saw[p][i].r = "val" => saw[p][i].w.v = p /\ ps[p].st # "pend" /\ ~ps[p].drop /\ saw[p][i].w = ps[p].w
Truth == \A p \in 1..N : said[p] = "broken" => saw[p] = <<>> /\ ps[p].fut = "gone"
OkIsHeard == \A p \in 1..N : said[p] = "ok" /\ ps[p].st = "res" /\ ps[p].fut = "live" => Outcomes(ps[p], "poll", 0) = {[r |-> "val", w |-> ps[p].w]}
\* one who was told "ok" at once, with the future not in another thread's hands, is not told so when nobody can listen
NoLie == [][\A p \in 1..N : ps[p].st = "pend" /\ ps'[p].st = "res" /\ said'[p] = "ok" => ps[p].fut = "live"]_vars
Settled == \A p \in 1..N : ps[p].st = "res" => \A how \in {"fwait", "timeout", "until", "poll"} : \A o \in Outcomes(ps[p], how, 10) : o.r # "timeout"
=============================================================================
