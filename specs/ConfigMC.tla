----------------------------- MODULE ConfigMC ------------------------------
(* Design check of Config: merging in order means that the last source that   *)
(* says something about a path decides it, and nothing else touches it.       *)
EXTENDS Config
CONSTANTS Keys, MaxSources, Deep
VARIABLES srcs, conf
vars == <<srcs, conf>>
KeySet == {<<k>> : k \in Keys}
Leaf(n) == Str(<<n>>)
(* every document over the keys whose leaves are the number of their source, an array among them *)
Leaves(n) == {Leaf(n), [t |-> "a", a |-> <<Leaf(n)>>]}
Tables(V) == UNION {{Table(f) : f \in [D -> V]} : D \in SUBSET KeySet}
Docs(n) == Tables(Leaves(n) \union IF Deep THEN Tables({Leaf(n)} \union Tables({Leaf(n)})) ELSE Tables({Leaf(n)}))
Paths == UNION {[1..n -> KeySet] : n \in 1..(IF Deep THEN 4 ELSE 3)}
Init == srcs = <<>> /\ conf = Empty
Next == /\ Len(srcs) < MaxSources
        /\ \E d \in Docs(Len(srcs) + 1) : srcs' = Append(srcs, d) /\ conf' = Merge(conf, d)
Spec == Init /\ [][Next]_vars
InOrder == conf = Fold(Empty, srcs)
LastWriter ==
  \A p \in Paths :
    LET S == {k \in DOMAIN srcs : Says(srcs[k], p)}
        w == Walk(conf, p)
    IN IF S = {} THEN w.x # "ok"
       ELSE LET k == CHOOSE i \in S : \A j \in S : j <= i
                s == Walk(srcs[k], p)
            IN CASE s.x = "ok" /\ s.v.t # "t" -> w = s
                 [] s.x = "ok" -> w.x = "ok" /\ w.v.t = "t"
                 [] OTHER -> w.x # "ok"
(* what was there before and is not said anew stays *)
Untouched ==
  [][\A p \in Paths : ~Says(srcs'[Len(srcs')], p) /\ (\A n \in 1..Len(p) : ~Says(srcs'[Len(srcs')], SubSeq(p, 1, n)) \/ Walk(srcs'[Len(srcs')], SubSeq(p, 1, n)).x = "ok")
       => Walk(conf', p).x = Walk(conf, p).x \/ Walk(conf, p).x = "key"]_vars
(* setting the same document again changes nothing *)
Again == \A k \in DOMAIN srcs : k = Len(srcs) => Merge(conf, srcs[k]) = conf
(* arithmetic of long numbers, and the meaning of some texts *)
N(k) == Big(k)
ASSUME /\ \A a \in {0, 1, 255, 256, 65535, 65536, 16777215, 99999} : \A k \in {0, 1, 2, 10, 255, 1000, 1024} :
            /\ a <= 65536 => Small(Mul(N(a), k)) = a * k
            /\ Small(Add(N(a), N(k))) = a + k
            /\ k > 0 => Div(N(a), k) = <<N(a \div k), a % k>>
            /\ Less(N(a), N(k)) = (a < k)
       /\ SizeOf(<<49, 46, 53, 75, 105, 66>>) = [x |-> "ok", m |-> <<0, 6>>, exact |-> TRUE]              \* 1.5KiB
       /\ SizeOf(<<51, 53>>) = [x |-> "ok", m |-> <<35>>, exact |-> TRUE]                                \* 35
       /\ SizeOf(<<49, 54, 69, 105, 66>>) = Bad                                                          \* 16EiB
       /\ SizeOf(<<57, 98, 105, 116>>) = [x |-> "ok", m |-> <<2>>, exact |-> FALSE]                      \* 9bit
       /\ DurOf(<<49, 104, 32, 51, 48, 109, 105, 110>>) = [x |-> "ok", d |-> [s |-> Big(5400), n |-> <<>>]]  \* 1h 30min
       /\ DurOf(<<49, 46, 53, 109, 115>>) = [x |-> "ok", d |-> [s |-> <<>>, n |-> Big(1500000)]]          \* 1.5ms
       /\ DurOf(<<49, 48>>) = Bad
       /\ IntToF64(FALSE, <<1>>) = BitsOf(<<63, 240, 0, 0, 0, 0, 0, 0>>)
       /\ IntToF64(TRUE, <<1, 0, 0, 0, 0, 0, 32>>) = BitsOf(<<195, 64, 0, 0, 0, 0, 0, 0>>)               \* -(2^53 + 1) rounds to even
       /\ F64ToF32(BitsOf(<<63, 185, 153, 153, 153, 153, 153, 154>>)) = [k |-> "ok", b |-> BitsOf(<<61, 204, 204, 205>>)]
       /\ F64ToF32(BitsOf(<<126, 55, 228, 60, 136, 0, 117, 156>>)).k = "inf"                             \* 1e300
=============================================================================
