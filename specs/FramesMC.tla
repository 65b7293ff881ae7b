------------------------------ MODULE FramesMC ------------------------------
(* Design of the decoder: chunks of CS bytes, what is unread is carried over  *)
(* on a swap by copying or by chaining.  Bytes are identified by their        *)
(* position in the stream; a head has H bytes.  Checked: whatever the cuts,   *)
(* the sizes and the swaps, the frames emitted are the frames of the stream.  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS CS, H, ROOM, MINFREE, MaxFrames, MaxLen
ASSUME CS > ROOM /\ CS > MINFREE

VARIABLES lens,    \* content lengths of the frames of the stream
          fed,     \* bytes fed so far
          buf, ro, \* bytes in the current chunk, and how many of them have been read
          chain,   \* unread bytes of earlier chunks
          head,    \* -1, or the content length of the frame whose head has been read
          out,     \* frames emitted, as sequences of positions
          dry      \* the last get found nothing
vars == <<lens, fed, buf, ro, chain, head, out, dry>>

SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
RECURSIVE Start(_, _)
Start(q, i) == IF i = 1 THEN 0 ELSE Start(q, i - 1) + H + q[i - 1]      \* position of the first byte of frame i
Total(q) == Start(q, Len(q) + 1)
Expected(q, i) == [j \in 1..q[i] |-> Start(q, i) + H + j - 1]
Complete(q, f) == Cardinality({i \in 1..Len(q) : Start(q, i + 1) <= f})

Init == /\ lens \in SeqsUpTo(0..MaxLen, MaxFrames)
        /\ fed = 0 /\ buf = <<>> /\ ro = 0 /\ chain = <<>> /\ head = -1 /\ out = <<>> /\ dry = FALSE

Readable == Len(chain) + Len(buf) - ro
Writeable == CS - Len(buf) > ROOM
Feed(k) == /\ Writeable /\ k <= CS - Len(buf) /\ fed + k <= Total(lens)
           /\ buf' = buf \o [j \in 1..k |-> fed + j - 1]
           /\ fed' = fed + k /\ dry' = FALSE
           /\ UNCHANGED <<lens, ro, chain, head, out>>
(* reading n bytes: what is taken, what is left of the chain, how far the current chunk has been read *)
Read(n, ch, r) == IF Len(ch) >= n THEN [got |-> SubSeq(ch, 1, n), ch |-> SubSeq(ch, n + 1, Len(ch)), r |-> r]
                  ELSE [got |-> ch \o SubSeq(buf, r + 1, r + n - Len(ch)), ch |-> <<>>, r |-> r + n - Len(ch)]
(* the head tells the length: here, by its first position *)
LenAt(p) == lens[CHOOSE i \in 1..Len(lens) : Start(lens, i) = p]
IsHead(g) == \E i \in 1..Len(lens) : g = [j \in 1..H |-> Start(lens, i) + j - 1]
Get == LET h == IF head < 0 /\ Readable >= H THEN Read(H, chain, ro) ELSE [got |-> <<>>, ch |-> chain, r |-> ro]
           hd == IF h.got = <<>> THEN head ELSE IF IsHead(h.got) THEN LenAt(h.got[1]) ELSE 99
           rd == Len(h.ch) + Len(buf) - h.r
       IN IF hd >= 0 /\ rd >= hd
          THEN LET c == Read(hd, h.ch, h.r) IN
               /\ out' = Append(out, c.got) /\ chain' = c.ch /\ ro' = c.r /\ head' = -1 /\ dry' = FALSE
               /\ UNCHANGED <<lens, fed, buf>>
          ELSE /\ chain' = h.ch /\ ro' = h.r /\ head' = hd /\ dry' = TRUE
               /\ UNCHANGED <<lens, fed, buf, out>>
Swap == /\ dry
        /\ LET over == SubSeq(buf, ro + 1, Len(buf)) IN
           IF over # <<>> /\ Len(over) < CS /\ CS - Len(over) > MINFREE /\ CS - Len(over) > ROOM
           THEN buf' = over /\ chain' = chain
           ELSE buf' = <<>> /\ chain' = chain \o over
        /\ ro' = 0
        /\ UNCHANGED <<lens, fed, head, out, dry>>
Next == (\E k \in 1..CS : Feed(k)) \/ Get \/ Swap
Spec == Init /\ [][Next]_vars

(* what comes out is what went in *)
Faithful == \A i \in 1..Len(out) : i <= Len(lens) /\ out[i] = Expected(lens, i)
InTime   == dry => Len(out) = Complete(lens, fed)
NotEarly == Len(out) <= Complete(lens, fed)
(* nothing is lost: what is unread is exactly what has been fed and not emitted *)
Kept     == fed = Total(SubSeq(lens, 1, Len(out))) + (IF head >= 0 THEN H ELSE 0) + Readable
(* and more can always be fed, if need be after a swap *)
CanFeed  == dry => Writeable \/ (LET over == Len(buf) - ro IN CS - (IF over > 0 /\ over < CS /\ CS - over > MINFREE /\ CS - over > ROOM THEN over ELSE 0) > ROOM)
=============================================================================
