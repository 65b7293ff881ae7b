----------------------------- MODULE BuffersMC -----------------------------
(* Design of the encode buffer on its pool: a current chunk with a written    *)
(* and a leased part, returned chunks that are taken again when nobody holds  *)
(* them, reservation before writing, skipping bytes that are filled in later. *)
(* Every byte written is a stamp of its own; checked: what a lease showed     *)
(* when it was made it shows as long as it lives, chunks are neither lost nor *)
(* too many, and only a real lack of chunks is reported.                      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS CS, MAX, INITIAL, MINFREE, MaxStamps, MaxLeases, BUG

VARIABLES pool,   \* queue of chunks not in use as the current one
          psize,  \* chunks that exist, as the pool believes
          cur, wo, ro,
          enc,    \* "off", "on": an encoder is writing, "err": it ran out
          chain,  \* pieces of the message being written that are in earlier chunks
          mem,    \* chunk -> offset -> stamp
          ls,     \* live leases: sequences of [c, a, b, w: the stamps it showed]
          n,      \* stamps used
          fail    \* what the last failure needed, and how many chunks were to be had; <<>> if none
vars == <<pool, psize, cur, wo, ro, enc, chain, mem, ls, n, fail>>

Chunk == 1..MAX
Held(c) == \/ \E l \in ls : \E i \in DOMAIN l : l[i].c = c
           \/ \E i \in DOMAIN chain : chain[i].c = c
Init == /\ cur = 1 /\ psize = INITIAL /\ pool = [i \in 1..(INITIAL - 1) |-> i + 1]
        /\ wo = 0 /\ ro = 0 /\ enc = "off" /\ chain = <<>> /\ ls = {} /\ n = 0 /\ fail = <<>>
        /\ mem = [c \in Chunk |-> [o \in 0..(CS - 1) |-> 0]]
Piece(c, a, b) == [c |-> c, a |-> a, b |-> b, w |-> [o \in a..(b - 1) |-> mem[c][o]]]

(* the pool: the first chunk in the queue nobody holds, those before it go to the back; otherwise a new one *)
HeldIn(c, ch) == (\E l \in ls : \E i \in DOMAIN l : l[i].c = c) \/ (\E i \in DOMAIN ch : ch[i].c = c)
FirstFree(q, ch) == IF \E i \in DOMAIN q : ~HeldIn(q[i], ch) THEN CHOOSE i \in DOMAIN q : ~HeldIn(q[i], ch) /\ \A j \in 1..(i - 1) : HeldIn(q[j], ch) ELSE 0
(* <<chunk or 0, queue, size>> *)
Take(q, s, ch) == LET i == FirstFree(q, ch) IN
  IF i > 0 THEN <<q[i], SubSeq(q, i + 1, Len(q)) \o SubSeq(q, 1, i - 1), s>>
  ELSE IF s < MAX THEN <<s + 1, q, s + 1>>
  ELSE <<0, q, s>>
Avail(ch) == MAX - psize + Cardinality({i \in DOMAIN pool : ~HeldIn(pool[i], ch)})

(* leaving the current chunk: what was written into it joins the chain *)
Chained == IF wo > ro THEN Append(chain, Piece(cur, ro, wo)) ELSE chain

Swap(ch, wo2) == LET t == Take(pool, psize, ch) IN
  /\ t[1] # 0
  /\ pool' = Append(t[2], cur) /\ psize' = t[3] /\ cur' = t[1] /\ wo' = wo2 /\ ro' = 0
NoSwap(ch) == Take(pool, psize, ch)[1] = 0

Begin == /\ enc = "off" /\ chain = <<>> /\ UNCHANGED <<mem, ls, n, chain>>
         /\ IF CS - wo >= MINFREE THEN enc' = "on" /\ fail' = <<>> /\ UNCHANGED <<pool, psize, cur, wo, ro>>
            ELSE IF NoSwap(<<>>) THEN fail' = <<1, Avail(<<>>)>> /\ UNCHANGED <<pool, psize, cur, wo, ro, enc>>
            ELSE Swap(<<>>, 0) /\ enc' = "on" /\ fail' = <<>>
(* making sure before anything is written that size bytes will fit *)
RECURSIVE Reserve(_, _, _, _)
Reserve(k, q, s, got) == IF k = 0 THEN <<TRUE, got \o q, s>>
  ELSE LET t == Take(q, s, <<>>) IN
       IF t[1] = 0 THEN <<FALSE, IF BUG = "reserve" THEN t[2] ELSE t[2] \o got, t[3]>>
       ELSE Reserve(k - 1, t[2], t[3], <<t[1]>> \o got)
Ask(size) == /\ enc = "on" /\ chain = <<>> /\ wo = ro
             /\ UNCHANGED <<mem, ls, n, chain>>
             /\ LET k == (size - (CS - wo) + CS - 1) \div CS IN
                CASE CS - wo > size -> fail' = <<>> /\ UNCHANGED <<pool, psize, cur, wo, ro, enc>>
                  [] CS - wo <= size /\ size < CS ->
                       IF NoSwap(<<>>) THEN fail' = <<1, Avail(<<>>)>> /\ enc' = "err" /\ UNCHANGED <<pool, psize, cur, wo, ro>>
                       ELSE Swap(<<>>, 0) /\ fail' = <<>> /\ UNCHANGED enc
                  [] OTHER -> IF k <= MAX - psize THEN fail' = <<>> /\ UNCHANGED <<pool, psize, cur, wo, ro, enc>>
                              ELSE IF k > MAX THEN fail' = <<k, Avail(<<>>)>> /\ enc' = "err" /\ UNCHANGED <<pool, psize, cur, wo, ro>>
                              ELSE LET r == Reserve(k, pool, psize, <<>>) IN
                                   /\ pool' = r[2] /\ psize' = r[3] /\ UNCHANGED <<cur, wo, ro>>
                                   /\ IF r[1] THEN fail' = <<>> /\ UNCHANGED enc ELSE fail' = <<k, Avail(<<>>)>> /\ enc' = "err"
(* one byte; a full chunk is left first *)
Write == /\ enc = "on" /\ n < MaxStamps /\ n' = n + 1 /\ UNCHANGED ls
         /\ IF wo < CS
            THEN /\ mem' = [mem EXCEPT ![cur][wo] = n + 1] /\ wo' = wo + 1
                 /\ fail' = <<>> /\ UNCHANGED <<pool, psize, cur, ro, enc, chain>>
            ELSE IF NoSwap(Chained)
            THEN /\ enc' = "err" /\ chain' = Chained /\ ro' = wo /\ fail' = <<1, Avail(Chained)>>
                 /\ UNCHANGED <<pool, psize, cur, wo, mem>>
            ELSE /\ Swap(Chained, 1) /\ chain' = Chained
                 /\ mem' = [mem EXCEPT ![cur'][0] = n + 1]
                 /\ fail' = <<>> /\ UNCHANGED enc
(* k bytes are skipped, and filled in once the message is complete: here at once, by whoever has them *)
Skip(k) == /\ enc = "on" /\ n + k <= MaxStamps /\ k < CS
           /\ UNCHANGED <<ls, mem>> /\ n' = n + k
           /\ IF CS - wo >= k THEN wo' = wo + k /\ fail' = <<>> /\ UNCHANGED <<pool, psize, cur, ro, enc, chain>>
              ELSE LET full == Append(chain, Piece(cur, ro, CS))
                       ch == IF CS > ro THEN full ELSE chain IN
                   IF NoSwap(ch)
                   THEN /\ enc' = "err" /\ chain' = ch /\ fail' = <<1, Avail(ch)>>
                        /\ wo' = (IF BUG = "offset" THEN k - (CS - wo) ELSE CS)
                        /\ ro' = CS
                        /\ UNCHANGED <<pool, psize, cur>>
                   ELSE Swap(ch, k - (CS - wo)) /\ chain' = ch /\ fail' = <<>> /\ UNCHANGED enc
Finish == /\ enc = "on" /\ Cardinality(ls) < MaxLeases
          /\ LET m == Chained IN ls' = IF m = <<>> THEN ls ELSE ls \union {m}
          /\ chain' = <<>> /\ ro' = wo /\ enc' = "off" /\ fail' = <<>>
          /\ UNCHANGED <<pool, psize, cur, wo, mem, n>>
Abort == /\ enc \in {"on", "err"}
         /\ chain' = <<>> /\ ro' = wo /\ enc' = "off" /\ fail' = <<>>
         /\ UNCHANGED <<pool, psize, cur, wo, mem, ls, n>>
Drop == \E l \in ls : ls' = ls \ {l} /\ fail' = <<>> /\ UNCHANGED <<pool, psize, cur, wo, ro, enc, chain, mem, n>>
Next == Begin \/ (\E s \in 0..(2 * CS) : Ask(s)) \/ Write \/ (\E k \in 1..2 : Skip(k)) \/ Finish \/ Abort \/ Drop
Spec == Init /\ [][Next]_vars

Shown(l) == \A i \in DOMAIN l : \A o \in l[i].a..(l[i].b - 1) : mem[l[i].c][o] = l[i].w[o]
Unchanged == (\A l \in ls : Shown(l)) /\ Shown(chain)
Apart == \A l, k \in ls : l # k => \A i \in DOMAIN l : \A j \in DOMAIN k : l[i].c # k[j].c \/ l[i].b <= k[j].a \/ k[j].b <= l[i].a
Known == /\ Len(pool) + 1 = psize /\ psize <= MAX
         /\ \A i, j \in DOMAIN pool : i # j => pool[i] # pool[j]
         /\ \A i \in DOMAIN pool : pool[i] # cur
Honest == fail = <<>> \/ fail[2] < fail[1]
Sane == ro <= wo /\ wo <= CS
=============================================================================
