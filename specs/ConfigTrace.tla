---------------------------- MODULE ConfigTrace ----------------------------
(* Validates what real documents and systems return against the merged tree.  *)
EXTENDS Config, Json, IOUtils, TLC
VARIABLES srcs,    \* sources of the system to be built: [x |-> "ok", v] or [x |-> "io" | "parse"]
          conf,    \* what a document or a system holds: [doc, sys]
          custom,  \* a scheduler was given in code
          labels,  \* labels that systems were given by default
          tr, l
tvars == <<srcs, conf, custom, labels, tr, l>>
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
NT     == Len(Traces)
T      == Traces[tr].t
Ev     == T[l]

RECURSIVE Tree(_)
Tree(n) == CASE n.t = "t" -> Table([k \in Set(n.k) |-> Tree(n.v[CHOOSE i \in DOMAIN n.k : n.k[i] = k])])
             [] n.t = "a" -> [t |-> "a", a |-> [i \in DOMAIN n.a |-> Tree(n.a[i])]]
             [] OTHER -> n
Custom == Str(<<99, 117, 115, 116, 111, 109>>)
TInit == /\ tr \in 1..NT /\ l = 2
         /\ srcs = <<>> /\ conf = [doc |-> Empty, sys |-> Empty] /\ custom = FALSE /\ labels = {}
         /\ TLCSet(tr, 1)

(* ---------------------------------------------------------------- sources *)
Src(e) ==
  /\ srcs' = Append(srcs, CASE e.k \in {"str", "file"} -> [x |-> "ok", v |-> Tree(e.v)]
                            [] e.k \in {"set", "old"} -> [x |-> "ok", v |-> Nest(Path(Entries[e.en].key), e.v)]
                            [] e.k = "sched" -> [x |-> "ok", v |-> Nest(Path(Entries[18].key), Custom)]
                            [] e.k \in {"bad", "badfile"} -> [x |-> "parse"]
                            [] e.k = "nofile" -> [x |-> "io"])
  /\ custom' = (custom \/ e.k = "sched")
  /\ UNCHANGED <<conf, labels>>
Doc(e) ==
  /\ CASE e.k = "ok" -> e.r = "ok" /\ conf' = [conf EXCEPT !.doc = Tree(e.v)]
       [] e.k = "bad" -> e.r = "parse" /\ conf' = conf
       [] e.k = "nofile" -> e.r = "io" /\ conf' = conf
  /\ UNCHANGED <<srcs, custom, labels>>

(* ---------------------------------------------------------------- building *)
Bads == {i \in DOMAIN srcs : srcs[i].x # "ok"}
All == Fold(Empty, [i \in DOMAIN srcs |-> srcs[i].v])
Runtime == 14..18
(* does the runtime's entry en have a value, or a default? *)
Fine(c, en) == LET w == Walk(c, Path(Entries[en].key)) IN w.x = "miss" \/ (w.x = "ok" /\ ~Conv(Entries[en].ty, w.v, FALSE, w.v))
(* the value of an entry that is stored as it is (integers, strings) *)
Val(c, en) == LET w == Walk(c, Path(Entries[en].key)) IN IF w.x = "ok" THEN w.v ELSE Entries[en].def
(* throughput times priority, when that is exact: priorities of eighths *)
Eighths(v) == IF v.t = "i" THEN -1
              ELSE IF v.t = "f" THEN 4      \* the default
              ELSE CHOOSE n \in -1..7 : (n > 0 /\ BitsOf(v.r) = F64Of8(n)) \/ (n = -1 /\ \A m \in 1..7 : BitsOf(v.r) # F64Of8(m))
InRange(c, en) ==
  LET v == Val(c, en) IN
  CASE en = 14 -> TRUE
    [] en \in {15, 17} -> IF v.t = "cores" THEN TRUE ELSE ~v.n /\ v.m # <<>>
    [] en = 18 -> v.s \in Schedulers
    [] en = 16 -> IF v.t = "f" THEN TRUE
                  ELSE LET w == F64ToF32(IF v.t = "r" THEN BitsOf(v.r) ELSE IntToF64(v.n, v.m))
                       IN w.k = "ok" /\ w.b[1] = 0 /\ (\E i \in 2..32 : w.b[i] = 1) /\ NumOf(SubSeq(w.b, 2, 9)) < 127
Tiny(c) == LET v == Val(c, 16) IN v.t = "r" /\ F64ToF32(BitsOf(v.r)).k = "tiny"
RECURSIVE IsDefault(_, _)
IsDefault(s, p) == IF p = <<>> THEN s # <<>> /\ \A i \in DOMAIN s : Digit(s[i])
                   ELSE s # <<>> /\ s[1] = p[1] /\ IsDefault(Tail(s), Tail(p))
Prefix == <<107, 111, 109, 112, 97, 99, 116, 45, 114, 117, 110, 116, 105, 109, 101, 45>>   \* kompact-runtime-
Build(e) ==
  /\ IF Bads # {}
     THEN /\ e.r.x = "err" /\ \E i \in Bads : e.r.e = srcs[i].x
          /\ UNCHANGED <<conf, labels>>
     ELSE LET c == All
              w14 == Walk(c, Path(Entries[14].key))
          IN IF e.r.x = "err"
             THEN /\ \E en \in Runtime :
                       /\ e.r.path = Entries[en].key
                       /\ LET w == Walk(c, Path(Entries[en].key)) IN
                          CASE w.x = "key" -> e.r.e = "key"
                            [] w.x = "miss" -> FALSE
                            [] OTHER -> IF Fine(c, en) THEN (e.r.e = "inval" /\ (~InRange(c, en) \/ (en = 16 /\ Tiny(c)))) \/ (e.r.e = "conv" /\ en = 16 /\ Tiny(c)) ELSE e.r.e = "conv"
                  /\ UNCHANGED <<conf, labels>>
             ELSE /\ \A en \in Runtime : Fine(c, en) /\ (InRange(c, en) \/ (en = 16 /\ Tiny(c)))
                  /\ IF w14.x = "ok" THEN e.r.label = w14.v.s /\ labels' = labels
                     ELSE IsDefault(e.r.label, Prefix) /\ e.r.label \notin labels /\ labels' = labels \union {e.r.label}
                  /\ e.r.thr = Val(c, 15).m
                  /\ LET n == Eighths(Val(c, 16)) IN n > 0 /\ Len(e.r.thr) <= 2 => e.r.maxm = Div(Mul(e.r.thr, n), 8)[1]
                  /\ IF custom /\ Val(c, 18) = Custom
                     THEN e.r.sched > 0 /\ (Val(c, 17).t # "cores" => Big(e.r.sched) = Val(c, 17).m)
                     ELSE e.r.sched = -1
                  /\ conf' = [conf EXCEPT !.sys = c]
  /\ srcs' = <<>> /\ custom' = FALSE

(* ---------------------------------------------------------------- reading *)
Of(e) == IF e.via = "doc" THEN conf.doc ELSE conf.sys
Read(e) == LET en == Entries[e.en]  r == e.r IN
           /\ r.x = "err" => r.e # "panic"
           /\ ReadOk(Of(e), en, e.d, IF r.x = "err" /\ r.e = "inval" THEN [x |-> "err", e |-> "inval", path |-> r.path, v |-> e.raw] ELSE r)
(* lookups: where they stand, and the path that led there *)
Dot(p, k) == IF p = <<>> THEN k ELSE p \o <<46>> \o k
StepTo(w, s) ==
  IF "k" \in DOMAIN s
  THEN LET p == Dot(w.p, s.k) IN
       IF w.x # "ok" THEN [w EXCEPT !.p = p]
       ELSE IF w.v.t # "t" THEN [x |-> "key", p |-> p, key |-> s.k, ty |-> TypeName(w.v)]
       ELSE IF s.k \notin DOMAIN w.v.f THEN [x |-> "miss", p |-> p]
       ELSE [x |-> "ok", p |-> p, v |-> w.v.f[s.k]]
  ELSE LET p == w.p \o <<91>> \o Digits(s.i) \o <<93>> IN
       IF w.x # "ok" THEN [w EXCEPT !.p = p]
       ELSE IF w.v.t # "a" THEN [x |-> "idx", p |-> p, idx |-> s.i, ty |-> TypeName(w.v)]
       ELSE IF s.i >= Len(w.v.a) THEN [x |-> "missidx", p |-> p]
       ELSE [x |-> "ok", p |-> p, v |-> w.v.a[s.i + 1]]
RECURSIVE StepsTo(_, _)
StepsTo(w, st) == IF st = <<>> THEN w ELSE StepsTo(StepTo(w, st[1]), Tail(st))
Start(e) == IF e.start = "get" THEN IF e.p \in DOMAIN Of(e).f THEN [x |-> "ok", p |-> e.p, v |-> Of(e).f[e.p]] ELSE [x |-> "miss", p |-> e.p]
            ELSE LET w == Walk(Of(e), Path(e.p)) IN
                 CASE w.x = "ok" -> [x |-> "ok", p |-> e.p, v |-> w.v]
                   [] w.x = "miss" -> [x |-> "miss", p |-> e.p]
                   [] w.x = "key" -> [x |-> "key", p |-> e.p, key |-> w.key, ty |-> w.ty]
PathErr(w, r) == /\ r.x = "err" /\ r.e = w.x /\ r.path = w.p
                 /\ r.miss = (w.x \in {"miss", "missidx"})
                 /\ w.x = "key" => r.key = w.key /\ r.ty = w.ty
                 /\ w.x = "idx" => r.idx = w.idx /\ r.ty = w.ty
RECURSIVE Shows(_, _)      \* a value as its text shows it
Shows(v, o) == CASE v.t \in {"y", "u"} -> o.t = "s"
                 [] v.t = "a" -> o.t = "a" /\ Len(v.a) = Len(o.a) /\ \A i \in DOMAIN v.a : Shows(v.a[i], o.a[i])
                 [] v.t = "t" -> o.t = "t" /\ DOMAIN v.f = DOMAIN o.f /\ \A k \in DOMAIN v.f : Shows(v.f[k], o.f[k])
                 [] OTHER -> o = v
As(w, as, r, paths) ==
  IF w.x # "ok" THEN PathErr(w, r)
  ELSE CASE as = "any" -> r.x = "ok" /\ Shows(w.v, Tree(r.v))
         [] as = "len" -> IF w.v.t = "a" THEN r.x = "ok" /\ r.v.len = Len(w.v.a) ELSE r.x = "err" /\ r.e = "conv" /\ (paths => r.path = w.p)
         [] OTHER -> IF r.x = "ok" THEN Conv(<<as>>, w.v, TRUE, r.v) ELSE r.e = "conv" /\ Conv(<<as>>, w.v, FALSE, w.v) /\ (paths => r.path = w.p)
Malformed(p) == \E i \in DOMAIN Path(p) : Path(p)[i] = <<>>
Look(e) ==
  IF e.start = "sel" /\ Malformed(e.p)
  THEN e.r.x = "err" /\ e.r.e \in {"path", "miss", "key"} /\ e.r.path = e.p /\ (e.r.e = "path" => ~e.r.miss)
  ELSE LET w == StepsTo(Start(e), e.steps) IN
       IF ~e.many
       THEN As(w, e.as, e.r, TRUE)
       ELSE IF w.x = "ok" /\ w.v.t = "a"
       THEN /\ e.r.x = "ok" /\ e.r.n = Len(w.v.a) /\ Len(e.r.v.each) = Len(w.v.a)
            /\ \A i \in DOMAIN w.v.a :
                 LET it == e.r.v.each[i]
                     w1 == StepTo(w, [i |-> i - 1])
                 IN /\ it.i = i - 1
                    /\ As(IF e.each = <<>> THEN w1 ELSE StepTo(w1, [k |-> e.each]), e.as, it.r, TRUE)
       ELSE As(w, "len", e.r, TRUE)
Index(e) ==
  LET w == StepsTo([x |-> "ok", p |-> <<>>, v |-> Of(e)], <<[k |-> e.p]>> \o e.steps) IN
  IF w.x # "ok" THEN e.r.x = "err" /\ e.r.e = "panic" ELSE As(w, e.as, e.r, FALSE)
(* ---------------------------------------------------------------- buffers *)
BufKeys == <<<<99, 104, 117, 110, 107, 95, 115, 105, 122, 101>>,
             <<105, 110, 105, 116, 105, 97, 108, 95, 99, 104, 117, 110, 107, 95, 99, 111, 117, 110, 116>>,
             <<109, 97, 120, 95, 99, 104, 117, 110, 107, 95, 99, 111, 117, 110, 116>>,
             <<101, 110, 99, 111, 100, 101, 95, 109, 105, 110, 95, 114, 101, 109, 97, 105, 110, 105, 110, 103>>>>
BufDefault == <<<<0, 244, 1>>, <<2>>, <<232, 3>>, <<64>>>>
BufSection == <<98, 117, 102, 102, 101, 114, 95, 99, 111, 110, 102, 105, 103>>
BufVal(c, i) ==           \* "panic" if it can be read, but makes no sense
  LET w == Walk(c, <<BufSection, BufKeys[i]>>)
  IN IF w.x # "ok" THEN BufDefault[i]
     ELSE IF i \in {2, 3} THEN IF w.v.t # "i" THEN BufDefault[i] ELSE IF w.v.n THEN <<0, -1>> ELSE w.v.m
     ELSE IF w.v.t = "i" THEN IF w.v.n THEN BufDefault[i] ELSE w.v.m
     ELSE IF w.v.t = "s" THEN LET z == SizeOf(w.v.s) IN IF z.x = "ok" THEN z.m ELSE BufDefault[i]
     ELSE BufDefault[i]
Buf(e) == LET b == [i \in 1..4 |-> BufVal(Of(e), i)]
              neg == \E i \in 1..4 : b[i] = <<0, -1>>
              good == ~neg /\ ~Less(b[3], b[2]) /\ Less(b[4], b[1]) /\ ~Less(b[1], <<128>>) /\ ~Less(b[3], <<2>>)
          IN IF good THEN /\ e.r.x = "ok" /\ e.r.cs = b[1]
                          /\ \A i \in DOMAIN e.cands : e.r.eq[i] = (e.cands[i] = b)
             ELSE e.r.x = "err" /\ e.r.e = "panic"
(* ---------------------------------------------------------------- values through their texts *)
RECURSIVE Same(_, _, _)
Same(ty, v, o) == IF ty[1] = "a" THEN o.t = "a" /\ Len(o.a) = Len(v.a) /\ \A i \in DOMAIN v.a : Same(Tail(ty), v.a[i], o.a[i])
                  ELSE Conv(ty, v, TRUE, o)
Step ==
  LET e == Ev IN
  CASE e.e = "src" -> Src(e)
    [] e.e = "doc" -> Doc(e)
    [] e.e = "build" -> Build(e)
    [] OTHER -> /\ UNCHANGED <<srcs, conf, custom, labels>>
                /\ CASE e.e = "read" -> Read(e)
                     [] e.e = "look" -> Look(e)
                     [] e.e = "index" -> Index(e)
                     [] e.e = "buf" -> Buf(e)
                     [] e.e = "rt" -> e.r.x = "ok" /\ Same(e.ty, e.v, e.r.v)
                     [] e.e \in {"down", "end"} -> TRUE
                     [] OTHER -> FALSE
TNext == l <= Len(T) /\ Step /\ l' = l + 1 /\ tr' = tr
TSpec == TInit /\ [][TNext]_tvars
Record == TLCSet(tr, IF TLCGet(tr) < l THEN l ELSE TLCGet(tr))
AllChecked == LET bad == {t \in 1..NT : TLCGet(t) # Len(Traces[t].t) + 1}
              IN \A t \in bad : Print(<<"REJECT", Traces[t].id, TLCGet(t)>>, TRUE)
=============================================================================
