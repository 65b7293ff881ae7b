-------------------------------- MODULE Net --------------------------------
(* One system and the peers it talks to, as it settles after every step.      *)
(*                                                                            *)
(* The state has the connections (who opened them, how far the handshake is,  *)
(* the session they carry), what the system knows about each peer (what it    *)
(* reported, the messages that wait, the retries used), the block and allow   *)
(* lists and the order in which connections were used.  An operator gives     *)
(* for every step the set of outcomes the documentation allows; an outcome is *)
(* the state afterwards with everything that is seen outside: status events,  *)
(* delivered messages, frames on the wire, connections opened and ended.      *)
EXTENDS Integers, Sequences, FiniteSets

Range(q) == {q[i] : i \in DOMAIN q}
Sel(q, Test(_)) == SelectSeq(q, Test)
Peers(S) == DOMAIN S.slot
Max(X) == CHOOSE x \in X : \A y \in X : y <= x

(* ------------------------------------------------- block and allow lists *)
Pow(l) == 2 ^ (32 - l)
Covers(r, x) == r.x \div Pow(r.l) = x \div Pow(r.l)
(* the last command that covers an address decides *)
IpBlocked(S, x) == LET cov == {k \in DOMAIN S.rules : Covers(S.rules[k], x)} IN cov # {} /\ S.rules[Max(cov)].b
(* allowed systems are not affected by ranges, and blocked ones not either *)
Blocked(S, p) == p \notin S.allow /\ (p \in S.block \/ IpBlocked(S, S.ip[p]))
WholeIpBlocked(S, x) == IpBlocked(S, x) /\ ~\E p \in S.allow : S.ip[p] = x

(* --------------------------------------------------------- connections *)
Alive(S) == {i \in DOMAIN S.c : S.c[i].ph # "gone"}
Open(S)  == {i \in DOMAIN S.c : S.c[i].ph \in {"up", "bye", "cr"}}
Ups(S)   == {i \in DOMAIN S.c : S.c[i].ph = "up"}
Slot(S, p, phs) == S.slot[p] # 0 /\ S.c[S.slot[p]].ph \in phs
NewConn(d, p, ph) == [d |-> d, w |-> p, q |-> p, ph |-> ph, sid |-> 0, n |-> FALSE, sl |-> FALSE, fly |-> <<>>, full |-> FALSE]

(* An outcome under construction *)
Fresh(S) == [S |-> S, st |-> <<>>, dl |-> <<>>, fr |-> <<>>, end |-> {}, nw |-> <<>>, ob |-> {}, tmp |-> 0]
St(R, k, p, s) == [R EXCEPT !.st = Append(@, [k |-> k, p |-> p, s |-> s, x |-> 0, l |-> 0])]
StX(R, k, x, l) == [R EXCEPT !.st = Append(@, [k |-> k, p |-> 0, s |-> 0, x |-> x, l |-> l])]
Touch(R, c) == [R EXCEPT !.S.lru = Append(Sel(@, LAMBDA i : i # c), c)]
(* frames are seen at once, unless the peer does not read *)
Put(R, c, k, n, s) == IF R.S.c[c].sl THEN [R EXCEPT !.S.c[c].fly = Append(@, [k |-> k, n |-> n, s |-> s])]
                      ELSE [R EXCEPT !.fr = Append(@, [c |-> c, k |-> k, n |-> n, s |-> s])]
End(R, c) == LET q == R.S.c[c].q
                 R1 == [R EXCEPT !.S.c[c].ph = "gone", !.S.lru = Sel(@, LAMBDA i : i # c), !.S.slot[q] = IF @ = c THEN 0 ELSE @]
             IN IF R.S.c[c].sl THEN R1 ELSE [R1 EXCEPT !.end = @ \union {c}]
OrZero(R, p) == [R EXCEPT !.S.retry[p] = IF @ < 0 THEN 0 ELSE @]
(* how what a peer sees of a connection that ended may end *)
ByeFr == [k |-> "bye", n |-> 0, s |-> 0]
CutFr == [k |-> "cut", n |-> 0, s |-> 0]
Tails == {<<>>, <<ByeFr>>, <<CutFr>>, <<ByeFr, ByeFr>>, <<ByeFr, CutFr>>}
IsData(f) == f.k = "data"
Numbers(fs) == [i \in DOMAIN fs |-> fs[i].n]
(* What a connection that breaks had not delivered: some first part of it is  *)
(* lost (or arrives yet), the rest waits for the next connection.             *)
Unsent(R, c) ==
  IF ~R.S.c[c].sl THEN {R}
  ELSE LET d == Sel(R.S.c[c].fly, IsData)
           q == R.S.c[c].q
       IN {LET R1 == [R EXCEPT !.S.c[c].fly = SubSeq(d, 1, k), !.S.c[c].full = FALSE, !.S.q[q] = Numbers(SubSeq(d, k + 1, Len(d))) \o @]
           IN IF k < Len(d) THEN OrZero(R1, q) ELSE R1 : k \in 0..Len(d)}
LostOf(R, c) ==
  LET q == R.S.c[c].q
      R1 == OrZero(St([R EXCEPT !.S.dst[q] = "lost", !.ob = @ \union {c}], "lost", q, R.S.c[c].sid), q)
  IN {End(R2, c) : R2 \in Unsent(R1, c)}
(* the end of a connection in any phase *)
Break(R, c) == IF R.S.c[c].ph \in {"up", "bye", "cr"} THEN LostOf(R, c) ELSE {End(R, c)}
ClosedOf(R, c) ==
  LET q == R.S.c[c].q
      R1 == St([R EXCEPT !.S.dst[q] = "closed"], "closed", q, R.S.c[c].sid)
      R2 == IF R1.S.q[q] # <<>> THEN [R1 EXCEPT !.S.retry[q] = 0] ELSE R1
  IN End(R2, c)

(* an attempt that fails takes a place until that is noticed: R.tmp of them in this step *)
Dial(R, p) ==
  LET c == Len(R.S.c) + 1
      no == StX(R, "hard", 0, 0)
      yes == IF ~R.S.on[p] THEN [R EXCEPT !.tmp = @ + 1]
             ELSE [R EXCEPT !.S.c = Append(@, NewConn("o", p, "req")), !.S.slot[p] = c, !.S.lru = Append(@, c), !.nw = Append(@, [c |-> c, p |-> p])]
      n == Cardinality(Alive(R.S))
  IN IF n >= R.S.hard THEN {no} ELSE IF n + R.tmp >= R.S.hard THEN {no, yes} ELSE {yes}
Connect(R, p) ==
  IF Blocked(R.S, p) THEN {R}
  ELSE IF Slot(R.S, p, {"up"}) THEN {R}
  ELSE IF Slot(R.S, p, {"bye", "cr"}) THEN LostOf(R, R.S.slot[p])
  ELSE IF R.S.slot[p] # 0 THEN Dial(End(R, R.S.slot[p]), p)
  ELSE Dial(R, p)

RECURSIVE Frames(_, _, _)
Frames(R, c, ms) == IF ms = <<>> THEN R ELSE Frames(Put(R, c, "data", Head(ms), 0), c, Tail(ms))
Route(R, p, ms) == IF Slot(R.S, p, {"up"}) THEN Touch(Frames(R, R.S.slot[p], ms), R.S.slot[p])
                   ELSE IF ms = <<>> THEN R
                   ELSE OrZero([R EXCEPT !.S.q[p] = @ \o ms], p)
Flush(R, p) == LET ms == R.S.q[p] IN Route([R EXCEPT !.S.q[p] = <<>>], p, ms)
Queue(R, p, n) == [R EXCEPT !.S.q[p] = Append(@, n)]

SendTo(R, p, n) ==
  LET d == R.S.dst[p] IN
  CASE d = "new" -> Connect([Queue(R, p, n) EXCEPT !.S.retry[p] = 0, !.S.dst[p] = "init"], p)
    [] d \in {"init", "lost"} -> {Queue(R, p, n)}
    [] d = "up" -> {Flush(Queue(R, p, n), p)}
    [] d = "closed" -> Connect(OrZero([Queue(R, p, n) EXCEPT !.S.dst[p] = "init"], p), p)
    [] d = "blocked" -> {R}          \* discarded

(* above the soft limit the connection not used for longest is closed *)
Soft(R, c) ==
  IF Cardinality(Ups(R.S)) <= R.S.soft THEN R
  ELSE LET v == R.S.lru[CHOOSE i \in DOMAIN R.S.lru : /\ R.S.c[R.S.lru[i]].ph = "up" /\ R.S.lru[i] # c
                                                      /\ \A j \in 1..(i - 1) : R.S.c[R.S.lru[j]].ph # "up" \/ R.S.lru[j] = c]
       IN Touch(Put(StX([R EXCEPT !.S.c[v].ph = "bye"], "soft", 0, 0), v, "bye", 0, 0), v)
Establish(R, c) ==
  LET q == R.S.c[c].q
      R1 == Soft([R EXCEPT !.S.c[c].ph = "up", !.S.slot[q] = c], c)
      R2 == [St(R1, "est", q, R.S.c[c].sid) EXCEPT !.S.retry[q] = -1, !.S.dst[q] = "up"]
  IN Flush(R2, q)

(* ------------------------------------------------- frames from a peer *)
StartOf(R, c, p, sid) ==
  LET Take(R0) == Establish(Put([R0 EXCEPT !.S.c[c].q = p, !.S.c[c].sid = sid], c, "ack", 0, 0), c)
      o == R.S.slot[p]
  IN IF Blocked(R.S, p) THEN {End(R, c)}
     ELSE IF o = 0 THEN {Take(R)}
     ELSE CASE R.S.c[o].ph = "up" -> {End(R, c)} \union {Take(R1) : R1 \in LostOf(R, o)}
            [] R.S.c[o].ph \in {"req", "init"} -> \* the larger session id stays; those of peers are below 1000 or above 2000
                 IF sid < 1000 THEN {End(R, c)} ELSE {Take(End(R, o))}
            [] OTHER -> {Take(R1) : R1 \in LostOf(R, o)}
(* a frame that is not expected here: it is ignored, or the connection ended *)
Odd(R, c) == {R} \union Break(R, c)
Awaited(ph, k) == CASE k = "hello" -> ph = "req" [] k = "start" -> ph = "wait" [] k = "ack" -> ph = "init"
                    [] k = "data" -> ph \in {"up", "bye"} [] k = "bye" -> ph \in {"up", "bye"} [] OTHER -> FALSE
FrameOf(R, o) ==
  LET c == o.c
      x == R.S.c[c]
      k == o.k
  IN CASE k = "hello" -> IF x.ph = "req" THEN {Put([R EXCEPT !.S.c[c].ph = "init", !.S.c[c].sid = o.fs, !.S.used = @ \union {o.fs}], c, "start", 0, o.fs)} ELSE Odd(R, c)
       [] k = "start" -> IF x.ph = "wait" THEN StartOf(R, c, o.p, o.s) ELSE Odd(R, c)
       [] k = "ack" -> IF x.ph = "init" THEN {Establish(R, c)} ELSE Odd(R, c)
       [] k = "data" -> IF x.ph \in {"up", "bye"} THEN {[R EXCEPT !.dl = Append(@, [n |-> o.n, s |-> x.sid]), !.S.c[c].n = TRUE]}
                        ELSE Odd(R, c)
       [] k = "bad" -> Odd(R, c)
       [] k = "bye" -> CASE x.ph = "up" -> {ClosedOf([Put(R, c, "bye", 0, 0) EXCEPT !.S.c[c].full = TRUE], c)}
                                            \union (IF x.sl /\ x.fly # <<>> THEN {[Put(R, c, "bye", 0, 0) EXCEPT !.S.c[c].ph = "cr"]} ELSE {})
                         [] x.ph = "bye" -> {ClosedOf(R1, c) : R1 \in Unsent(R, c)}
                         [] x.ph = "cr" -> Odd(R, c)
                         [] OTHER -> {End(R, c)}
       [] OTHER -> Break(R, c)         \* junk

(* ------------------------------------------------------- commands *)
RECURSIVE DropAll(_, _)
DropAll(R, cs) ==
  IF cs = {} THEN R
  ELSE LET c == CHOOSE i \in cs : TRUE
           R1 == IF c \in Open(R.S) THEN St([R EXCEPT !.S.retry[R.S.c[c].q] = -1], "drop", R.S.c[c].q, 0) ELSE R
       IN DropAll(End(R1, c), cs \ {c})
Len0(o) == IF o.o \in {"bip", "aip"} THEN 0 ELSE o.l
BlockRange(R, o) ==
  LET R1 == [R EXCEPT !.S.rules = Append(@, [b |-> TRUE, x |-> o.x, l |-> o.l])]
      hit == {c \in Alive(R1.S) : R1.S.c[c].ph # "wait" /\ Covers([x |-> o.x, l |-> o.l], R1.S.ip[R1.S.c[c].q]) /\ Blocked(R1.S, R1.S.c[c].q)}
      waits == {c \in Alive(R1.S) : R1.S.c[c].ph = "wait" /\ IpBlocked(R1.S, R1.S.ip[R1.S.c[c].w])}
  IN {StX(DropAll(R1, hit \union w), o.o, o.x, Len0(o)) : w \in SUBSET waits}
BlockSystem(R, p) ==
  LET R1 == [R EXCEPT !.S.block = @ \union {p}, !.S.allow = @ \ {p}, !.S.dst[p] = "blocked"]
      R2 == IF R.S.slot[p] # 0 THEN End(R1, R.S.slot[p]) ELSE R1
  IN {St(R2, "bsys", p, 0)}
AllowSystem(R, p) ==
  LET R1 == [R EXCEPT !.S.block = @ \ {p}, !.S.allow = @ \union {p}, !.S.dst[p] = IF @ = "blocked" THEN "new" ELSE @]
  IN {St(R1, "asys", p, 0)} \union (IF p \in R.S.allow THEN {R1} ELSE {})

(* ------------------------------------------------------- retries *)
TickOne(R, p) ==
  IF R.S.retry[p] < R.S.max THEN Connect([R EXCEPT !.S.retry[p] = @ + 1], p)
  ELSE {St([R EXCEPT !.S.retry[p] = -1, !.S.q[p] = <<>>, !.S.dst[p] = "new"], "drop", p, 0)}
RECURSIVE TickAll(_, _)
TickAll(Rs, ps) ==
  IF ps = {} THEN Rs
  ELSE UNION {LET ord == IF Cardinality(Alive(R.S)) + R.tmp + Cardinality(ps) <= R.S.hard THEN {CHOOSE p \in ps : \A q \in ps : p <= q} ELSE ps
              IN UNION {TickAll(TickOne(R, p), ps \ {p}) : p \in ord} : R \in Rs}
Sorted(nw) == \A i, j \in DOMAIN nw : i < j => nw[i].p < nw[j].p

(* ------------------------------------------------------- all steps *)
(* o.fs: the session id the system chose for a Start it sends in this step    *)
Outcomes(S, o) ==
  LET F == Fresh(S)
      R == IF o.o \in {"f", "part", "fin", "rst"} THEN Touch(F, o.c) ELSE F
  IN CASE o.o = "snd" -> SendTo(R, o.p, o.n)
       [] o.o = "conn" -> Connect(R, o.p)
       [] o.o = "disc" -> IF S.dst[o.p] # "up" THEN {R}
                          ELSE LET R1 == Flush(R, o.p)
                                   c == S.slot[o.p]
                               IN IF ~Slot(R1.S, o.p, {"up"}) THEN {R1}
                                  ELSE {Touch(Put([R1 EXCEPT !.S.c[c].ph = "bye"], c, "bye", 0, 0), c)}
       [] o.o = "bsys" -> BlockSystem(R, o.p)
       [] o.o = "asys" -> AllowSystem(R, o.p)
       [] o.o \in {"bip", "bnet"} -> BlockRange(R, o)
       [] o.o \in {"aip", "anet"} -> {StX([R EXCEPT !.S.rules = Append(@, [b |-> FALSE, x |-> o.x, l |-> o.l])], o.o, o.x, Len0(o))}
       [] o.o = "tick" -> {Q \in TickAll({R}, {p \in Peers(S) : S.retry[p] >= 0}) : Sorted(Q.nw)}
       [] o.o = "listen" -> {[R EXCEPT !.S.on[o.p] = o.on]}
       [] o.o = "dial" ->
            LET c == Len(S.c) + 1
                R1 == [R EXCEPT !.S.c = Append(@, NewConn("i", o.p, "wait")), !.S.lru = Append(@, c)]
                no == End(R1, c)
                yes == Put(R1, c, "hello", 0, 0)
                full == Cardinality(Alive(S)) >= S.hard
            IN IF WholeIpBlocked(S, S.ip[o.p]) THEN {no} \union (IF full THEN {StX(no, "hard", 0, 0)} ELSE {yes})
               ELSE IF full THEN {StX(no, "hard", 0, 0)} ELSE {yes}
       [] o.o = "f" -> IF S.c[o.c].ph = "gone" THEN {F} ELSE FrameOf(R, o)
       [] o.o = "part" -> IF S.c[o.c].ph = "gone" THEN {F} ELSE IF Awaited(S.c[o.c].ph, o.k) THEN {R} ELSE Odd(R, o.c)
       [] o.o = "fin" -> IF S.c[o.c].ph = "gone" THEN {F}
                         ELSE IF S.c[o.c].ph = "cr" THEN {R} \union Break(R, o.c)
                         ELSE Break(R, o.c) \union (IF S.c[o.c].ph = "bye" THEN {ClosedOf(R1, o.c) : R1 \in Unsent(R, o.c)} ELSE {})
       [] o.o = "rst" -> \* nothing more is seen on it
            LET Z == [R EXCEPT !.S.c[o.c].sl = TRUE]
                Rs == IF S.c[o.c].ph = "gone" THEN {F}
                      ELSE Break(Z, o.c) \union (IF S.c[o.c].ph = "bye" THEN {ClosedOf(R1, o.c) : R1 \in Unsent(Z, o.c)} ELSE {})
            IN {[Q EXCEPT !.S.c[o.c].sl = FALSE, !.S.c[o.c].fly = <<>>] : Q \in Rs}
       [] o.o = "stall" -> {[R EXCEPT !.S.c[o.c].sl = TRUE]}
       [] o.o = "flow" ->
            LET x == S.c[o.c]
                R0 == [R EXCEPT !.S.c[o.c].sl = FALSE, !.S.c[o.c].fly = <<>>]
                See(Q, fs) == [Q EXCEPT !.fr = @ \o [i \in DOMAIN fs |-> [c |-> o.c, k |-> fs[i].k, n |-> fs[i].n, s |-> fs[i].s]]]
            IN CASE x.ph = "gone" ->
                      LET ends == {See(R0, SubSeq(x.fly, 1, j)) : j \in (IF x.full THEN {Len(x.fly)} ELSE 0..Len(x.fly))}
                          by(Q) == IF x.full THEN {Q} ELSE {See(Q, t) : t \in Tails}
                      IN UNION {{[Q2 EXCEPT !.end = @ \union {o.c}] : Q2 \in by(Q)} : Q \in ends}
                 [] x.ph = "cr" -> {ClosedOf(See(R0, x.fly), o.c)}
                 [] OTHER -> {See(R0, x.fly)}

(* the system is shut down: open connections get a Bye, and all are ended *)
DownOk(S, fr, end) ==
  /\ end = {c \in DOMAIN S.c : S.c[c].ph # "gone" \/ S.c[c].sl}
  /\ \A c \in DOMAIN S.c :
       LET x == S.c[c]
           f == Sel(fr, LAMBDA y : y.c = c)
           g == [i \in DOMAIN f |-> [k |-> f[i].k, n |-> f[i].n, s |-> f[i].s]]
       IN IF ~x.sl THEN g = IF x.ph = "up" THEN <<ByeFr>> ELSE <<>>
          ELSE \E j \in 0..Len(x.fly) : g \in {SubSeq(x.fly, 1, j) \o t : t \in Tails}

(* --------------------------------------------- what is seen of an outcome *)
Per == {"est", "lost", "closed", "drop", "bsys", "asys"}
About(st, p) == LET f == Sel(st, LAMBDA y : y.k \in Per /\ y.p = p) IN [i \in DOMAIN f |-> <<f[i].k, f[i].s>>]
Count(st, k) == Cardinality({i \in DOMAIN st : st[i].k = k})
Rest(st) == LET f == Sel(st, LAMBDA y : y.k \notin Per \union {"soft", "hard"}) IN [i \in DOMAIN f |-> <<f[i].k, f[i].x, f[i].l>>]
On(fr, c) == LET f == Sel(fr, LAMBDA y : y.c = c) IN [i \in DOMAIN f |-> <<f[i].k, f[i].n, f[i].s>>]
SameSt(S, a, b) == /\ \A p \in Peers(S) \union {0, -1} : About(a, p) = About(b, p)
                   /\ Count(a, "soft") = Count(b, "soft") /\ Count(a, "hard") = Count(b, "hard")
                   /\ Rest(a) = Rest(b)
Seen(R, st, dl, fr, end, nw) ==
  /\ SameSt(R.S, R.st, st)
  /\ R.dl = dl /\ R.nw = nw /\ R.end = end
  /\ \A c \in DOMAIN R.S.c : On(fr, c) \in {On(R.fr, c)} \union (IF c \in R.ob THEN {On(R.fr, c) \o << <<"bye", 0, 0>> >>} ELSE {})

Start(max, soft, hard, ip, on) ==
  LET P == DOMAIN ip IN
  [max |-> max, soft |-> soft, hard |-> hard, ip |-> ip, on |-> on, c |-> <<>>, slot |-> [p \in P |-> 0], dst |-> [p \in P |-> "new"],
   q |-> [p \in P |-> <<>>], retry |-> [p \in P |-> -1], rules |-> <<>>, block |-> {}, allow |-> {}, lru |-> <<>>, used |-> {}]
=============================================================================
