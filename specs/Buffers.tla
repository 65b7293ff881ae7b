------------------------------ MODULE Buffers ------------------------------
(* Network buffers.  Memory comes in chunks from an allocator.  A side ("e":  *)
(* an encode buffer, "p": a pool with decoders) owns at most cfg.max chunks.  *)
(* Handles give access to pieces of chunks.  What a handle shows stays as it  *)
(* is; what no handle holds becomes available again.                          *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg,     \* [cs, max, free]
          alloc, rel, \* side -> chunks obtained from, and given back to, the allocator
          hs,      \* handle -> [s: side, segs: pieces <<chunk, from, to>>, may: the chunks it may keep from reuse]
          cur,     \* the chunk being encoded into, 0 if not known
          out,     \* chunks the user took from the pool
          lost,    \* chunks that were taken and will not come back
          decs     \* decoder -> [c: the chunk it reads into, may: the chunks it may keep, u: bytes not yet read]
bvars == <<cfg, alloc, rel, hs, cur, out, lost, decs>>

Chunks(q) == {q[i][1] : i \in DOMAIN q}
Apart(x, y) == x[1] # y[1] \/ x[3] <= y[2] \/ y[3] <= x[2]
Inside(x, y) == x[1] = y[1] /\ x[2] >= y[2] /\ x[3] <= y[3]
RECURSIVE Size(_)
Size(q) == IF q = <<>> THEN 0 ELSE Head(q)[3] - Head(q)[2] + Size(Tail(q))
CeilDiv(a, b) == (a + b - 1) \div b
Max(a, b) == IF a > b THEN a ELSE b

Live(s) == alloc[s] \ rel[s]
(* chunks some handle still shows bytes of; and chunks that may be kept from being used again *)
Must(s, h) == UNION {Chunks(h[i].segs) : i \in {j \in DOMAIN h : h[j].s = s}}
May(s)  == UNION ({hs[i].may : i \in {j \in DOMAIN hs : hs[j].s = s}} \union {IF s = "p" THEN decs[d].may ELSE {} : d \in DOMAIN decs})
AllSegs(s) == UNION {{hs[i].segs[k] : k \in DOMAIN hs[i].segs} : i \in {j \in DOMAIN hs : hs[j].s = s}}

(* how many chunks the encode buffer can surely still get *)
Free(s)  == Live(s) \ May(s)
AvailE   == cfg.max - Cardinality(Live("e")) + IF cur # 0 THEN Cardinality(Free("e") \ {cur}) ELSE Max(0, Cardinality(Free("e")) - 1)
(* the pool *)
DecCur   == {decs[d].c : d \in DOMAIN decs}
Idle     == Live("p") \ (out \union DecCur \union lost)
CanGet   == (Idle \ May("p")) # {} \/ Cardinality(Live("p") \union lost) < cfg.max

(* memory movements that go with a step: n newly obtained, r given back; h are the handles after the step *)
Memory(s, n, r, h) ==
  /\ n \cap alloc[s] = {}
  /\ r \subseteq (alloc[s] \union n) \ rel[s]          \* given back once
  /\ r \cap Must(s, h) = {}                            \* never while someone looks at it
  /\ Cardinality((alloc[s] \union n) \ (rel[s] \union r)) <= cfg.max

Put(f, i, v) == [x \in DOMAIN f \union {i} |-> IF x = i THEN v ELSE f[x]]
Del(f, S)    == [x \in DOMAIN f \ S |-> f[x]]

(* a message is encoded into pieces q; own: bytes written, the others belong to the content of handle of *)
Encode(id, n, q, of, h2) ==
  LET theirs(x) == of \in DOMAIN hs /\ \E k \in DOMAIN hs[of].segs : Inside(x, hs[of].segs[k])
      ownq == SelectSeq(q, LAMBDA x : ~theirs(x))
  IN /\ id \notin DOMAIN hs
     /\ Size(q) = n
     /\ \A i \in DOMAIN ownq : \A y \in AllSegs("e") : Apart(ownq[i], y)
     /\ \A i, j \in DOMAIN ownq : i # j => Apart(ownq[i], ownq[j])
     /\ h2 = Put(hs, id, [s |-> "e", segs |-> q, may |-> Chunks(q) \union IF of \in DOMAIN hs THEN hs[of].may ELSE {}])
     /\ cur' = IF ownq = <<>> THEN 0 ELSE ownq[Len(ownq)][1]
(* an encoding may fail for want of chunks only if there are too few *)
NoRoom(need) == AvailE < Max(1, CeilDiv(need, cfg.cs))
=============================================================================
