-------------------------- MODULE DatagramsTrace --------------------------
(* Validates what a real system did with datagrams, and which ones it sent.   *)
EXTENDS Datagrams, Json, IOUtils, TLC
VARIABLES must, may,   \* what was received and is not delivered yet: has to be, may be
          hold,        \* receivers keep buffers, so that the system may run out of them
          names, p1,   \* who is registered under which path; what peer 1 is called
          tr, l
vars == <<must, may, hold, names, p1, tr, l>>
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
NT     == Len(Traces)
T      == Traces[tr].t
C      == T[1]
Ev     == T[l]
NoAddr(q) == [k |-> q.k, id |-> q.id, segs |-> q.segs]
NamesOf(to) == [i \in 1..Len(to) |-> [q |-> NoAddr(W!DecPath(to[i].b).q), to |-> IF to[i].to = "nobody" THEN "dead" ELSE to[i].to]]
\* messages go out with the transport of their destination in the source path as well
Me == <<C.me[1] - (C.me[1] % 32) + 2>> \o Tail(C.me)
D(m) == Deliver(names, m)
Fwd(x) == x.to = "f"
Ours(x) == ~Fwd(x)
\* a forwarded message arrives at peer 1 as it is; only whole ones (the numbers of which are known) can be told apart

TInit == tr \in 1..NT /\ l = 2 /\ must = <<>> /\ may = <<>> /\ hold = FALSE /\ names = NamesOf(Traces[tr].t[1].to) /\ p1 = W!DecPath(Traces[tr].t[1].peers[1]).q /\ TLCSet(tr, 1)
Dl(e) == [i \in 1..Len(e.dl) |-> [to |-> e.dl[i].to, src |-> e.dl[i].src, n |-> e.dl[i].n]]
Rx(e) == [i \in 1..Len(e.rx) |-> [p |-> e.rx[i].p, len |-> e.rx[i].len, b |-> e.rx[i].b]]
Reads(ds) == Map(ds, LAMBDA d : Read(d, C.chunk))
Sendable(o) == o.p > 0 /\ OutLen(Me, C.peers[o.p], o.n, o.k) <= MAXOUT
OutOf(o) == Out(o.p, Me, C.peers[o.p], o.n, o.k)

Step ==
  /\ Ev.e \in {"go", "hold"}
  /\ LET h2   == IF Ev.e = "hold" THEN Ev.on ELSE hold
         rd   == TLCEval(Reads(Ev.in))
         m2   == TLCEval(must \o Map(Cat(Map(rd, LAMBDA x : x.must)), D))
         o2   == TLCEval(may \o Map(Cat(Map(rd, LAMBDA x : x.may)), D))
         dl   == TLCEval(Dl(Ev))
         m3   == TLCEval(Sel(m2, Ours))
         o3   == TLCEval(Sel(o2, Ours))
         left == TLCEval(Minus(m3, dl))
         got  == TLCEval(Minus(dl, m3))
         \* outgoing: what was sent, and what was received to be forwarded
         mf   == TLCEval(Sel(m2, Fwd))
         of   == TLCEval(Sel(o2, Fwd))
         rx   == TLCEval(Rx(Ev))
         want == TLCEval(Map(Sel(Ev.out, Sendable), OutOf))
         opt(o) == C.tight \/ \E i \in 1..Len(Ev.no) : Ev.no[i] = o.n
         nor  == TLCEval(Minus(rx, want))                        \* came, but not from here
         miss == TLCEval(Minus(want, rx))
         \* forwarded ones are judged by what is in them
         all  == TLCEval(mf \o of)
         ys   == TLCEval([j \in 1..Len(nor) |-> At([b |-> nor[j].b, len |-> nor[j].len, flip |-> FALSE], 0)])
         isf(j, x) == LET y == ys[j] IN nor[j].p = 1 /\ y.ok /\ y.next = nor[j].len /\ y.m.src = x.src /\ y.m.n = x.n /\ y.m.dst = p1
         fm   == {i \in 1..Len(mf) : \E j \in 1..Len(nor) : isf(j, mf[i])}
         \* a datagram in which the pattern is broken must be a forwarded one
         odd(i) == \E j \in 1..Len(nor) : nor[j] = rx[i] /\ ys[j].m.n = -1
     IN /\ \A i \in 1..Len(Ev.dl) : ~Ev.dl[i].s          \* datagrams belong to no session
        /\ Within(got, o3)
        /\ h2 \/ left = <<>>
        /\ \A i \in 1..Len(Ev.rx) : Ev.rx[i].ok \/ odd(i)
        /\ C.tight \/ Ev.no = <<>>
        /\ \A i \in 1..Len(miss) : LET n == CHOOSE j \in 1..Len(Ev.out) : OutOf(Ev.out[j]) = miss[i] IN opt(Ev.out[n])
        \* everything else that came out is a forwarded message, each at most once
        /\ Len(nor) <= Len(all)
        /\ \A j \in 1..Len(nor) : LET h == {i \in 1..Len(all) : isf(j, all[i])} IN
              h # {} /\ Cardinality({k \in 1..Len(nor) : nor[k] = nor[j]}) <= Cardinality(h)
        /\ h2 \/ C.tight \/ fm = 1..Len(mf)
        /\ hold' = h2
        /\ must' = IF h2 THEN left \o Sel(mf, LAMBDA x : ~\E j \in 1..Len(nor) : isf(j, x)) ELSE <<>>
        /\ may'  = IF h2 THEN Minus(o2, got) ELSE <<>>
TNext == l <= Len(T) /\ Step /\ l' = l + 1 /\ UNCHANGED <<tr, names, p1>>
TSpec == TInit /\ [][TNext]_vars
Record == TLCSet(tr, IF TLCGet(tr) < l THEN l ELSE TLCGet(tr))
AllChecked == LET bad == {t \in 1..NT : TLCGet(t) # Len(Traces[t].t) + 1}
              IN \A t \in bad : Print(<<"REJECT", Traces[t].id, TLCGet(t)>>, TRUE)
=============================================================================
