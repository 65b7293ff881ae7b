------------------------------- MODULE Frames -------------------------------
(* C16.  The wire format of frames and the decoder of a byte stream.          *)
(* A stream is a sequence of pieces: explicit bytes [b |-> ...] or a run of   *)
(* n pattern bytes [n |-> .., seed |-> ..].  The decoder has been fed the     *)
(* first `fed` bytes, in pieces of any size; the next frame starts at `pos`.  *)
(* What the decoder may answer depends on the stream, fed and pos only: not   *)
(* on how the bytes came in.                                                  *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES ps,      \* the pieces of the stream
          starts,  \* position of the first byte of each piece
          fed, pos,
          broken   \* the decoder has reported an error: it need not be usable any more
fvars == <<ps, starts, fed, pos, broken>>

HEAD  == 9
MAGIC == <<192, 161, 186, 17>>
TData == 2  THello == 4  TStart == 5  TAck == 6  TBye == 7

PLen(p) == IF "b" \in DOMAIN p THEN Len(p.b) ELSE p.n
RECURSIVE StartsR(_, _, _)
StartsR(q, i, at) == IF i > Len(q) THEN <<>> ELSE <<at>> \o StartsR(q, i + 1, at + PLen(q[i]))
Pattern(s, i) == (s * 31 + i * 7 + (i \div 251) * 13 + (i \div 63001) * 29) % 256
Total == IF Len(ps) = 0 THEN 0 ELSE starts[Len(ps)] + PLen(ps[Len(ps)])
(* the byte at position p (from 0) *)
ByteAt(p) == LET i == CHOOSE j \in 1..Len(ps) : starts[j] <= p /\ p < starts[j] + PLen(ps[j])
             IN IF "b" \in DOMAIN ps[i] THEN ps[i].b[p - starts[i] + 1] ELSE Pattern(ps[i].seed, p - starts[i])
Bytes(p, n) == [i \in 1..n |-> ByteAt(p + i - 1)]

U32At(p) == IF ByteAt(p) >= 64 THEN 1073741824   \* more than any stream here has
            ELSE ((ByteAt(p) * 256 + ByteAt(p + 1)) * 256 + ByteAt(p + 2)) * 256 + ByteAt(p + 3)
U16At(p) == ByteAt(p) * 256 + ByteAt(p + 1)

(* ---------------------------------------------------------------- decoding *)
None == [r |-> "nodata"]
Err  == [r |-> "err"]
(* address: version, ip, port; then `extra` bytes of session id *)
Control(kind, c, n, extra) ==
  IF n = 0 THEN {Err}
  ELSE LET v == ByteAt(c)
           k == CASE v = 4 -> 4 [] v = 6 -> 16 [] OTHER -> -1
           want == 1 + k + 2 + extra
           f == [r |-> kind, ip |-> Bytes(c + 1, k), port |-> U16At(c + 1 + k), id |-> Bytes(c + 3 + k, extra)]
       IN IF k < 0 \/ n < want THEN {Err}
          ELSE IF n = want THEN {f}
          ELSE {f, Err}          \* content after the fields: either
(* the answers allowed at position p when the bytes before `fed` are there; every answer comes with the next position *)
Answers(p, fd) ==
  LET av == fd - p
      badmagic == \E i \in 1..4 : i <= av /\ ByteAt(p + i - 1) # MAGIC[i]
  IN IF av < HEAD THEN (IF badmagic THEN {None, Err} ELSE {None})
     ELSE IF badmagic THEN {Err}
     ELSE LET n == U32At(p + 4)
              t == ByteAt(p + 8)
              c == p + HEAD
          IN IF t \notin {TData, THello, TStart, TAck, TBye} \/ (t \in {TAck, TBye} /\ n > 0)
             THEN (IF av >= HEAD + n THEN {Err} ELSE {None, Err})
             ELSE IF av < HEAD + n THEN {None} \cup (IF t \in {THello, TStart} THEN {Err} ELSE {})
             ELSE CASE t = TData  -> {[r |-> "data", at |-> c, n |-> n]}
                    [] t = TAck   -> {[r |-> "ack"]}
                    [] t = TBye   -> {[r |-> "bye"]}
                    [] t = THello -> Control("hello", c, n, 0)
                    [] t = TStart -> Control("start", c, n, 16)
NextPos(p) == p + HEAD + U32At(p + 4)

(* ---------------------------------------------------------------- encoding *)
Byte4(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Content(f) == CASE f.k = "data" -> f.b
                [] f.k \in {"hello", "start"} -> <<IF Len(f.ip) = 4 THEN 4 ELSE 6>> \o f.ip
                                                 \o <<f.port \div 256, f.port % 256>> \o (IF f.k = "start" THEN f.id ELSE <<>>)
                [] OTHER -> <<>>
TypeOf(f) == CASE f.k = "data" -> TData [] f.k = "hello" -> THello [] f.k = "start" -> TStart [] f.k = "ack" -> TAck [] OTHER -> TBye
EncFrame(f) == MAGIC \o Byte4(Len(Content(f))) \o <<TypeOf(f)>> \o Content(f)

(* ---------------------------------------------------------------- transitions *)
FInit(q) == /\ ps = q /\ starts = StartsR(q, 1, 0)
            /\ fed = 0 /\ pos = 0 /\ broken = FALSE
Feed(k) == /\ fed' = fed + k /\ fed' <= Total
           /\ UNCHANGED <<ps, starts, pos, broken>>
Get(a) == /\ ~broken
          /\ a \in Answers(pos, fed)
          /\ pos' = IF a.r \in {"nodata", "err"} THEN pos ELSE NextPos(pos)
          /\ broken' = (a.r = "err")
          /\ UNCHANGED <<ps, starts, fed>>
=============================================================================
