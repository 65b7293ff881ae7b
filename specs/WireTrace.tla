------------------------------ MODULE WireTrace ------------------------------
(* Validates recorded behaviour of paths, serialisers and messages against Wire. *)
EXTENDS Wire, Json, IOUtils, TLC

VARIABLES tr, l
tvars == <<wvars, tr, l>>
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
NT     == Len(Traces)
T      == Traces[tr].t
Ev     == T[l]

TInit == /\ tr \in 1..NT
         /\ l = 2
         /\ WInit(Traces[tr].t[1].own, Traces[tr].t[1].tight)
         /\ TLCSet(tr, 1)
Skip == UNCHANGED wvars

Text(e) == LET x == RefParse(e.tx, e.how, e.sk, e.uu) IN
           /\ e.r = x.r
           /\ e.r = "ok" => e.q = x.q /\ IsPath(e.q)
           /\ e.own => e.r = "ok" /\ e.q = e.p
Dec1(e) == LET x == DecPath(e.by) IN
           /\ e.r = x.r
           /\ e.r = "ok" => e.q = x.q /\ e.used = x.used
SDec(e) == LET x == DecSys(e.by) IN e.r = x.r /\ (e.r = "ok" => e.q = x.q)
SegsOf(e) == CASE e.way \in {"vec", "insert", "lookup"} -> e.segs
               [] e.way = "str" -> Split(e.arg, SLASH)
               [] e.way = "push" -> e.p.segs \o <<e.arg>>
               [] e.way = "append" -> e.p.segs \o Split(e.arg, SLASH)
Build(e) == LET ss == SegsOf(e) IN
            IF e.way = "insert" THEN e.r = (IF InsertOk(ss) THEN "ok" ELSE "err")
            ELSE IF e.way = "lookup" THEN e.r = (IF LookupOk(ss) THEN "ok" ELSE "err")
            ELSE /\ e.r = (IF LookupOk(ss) THEN "ok" ELSE "err")
                 /\ e.r = "ok" => e.q = [e.p EXCEPT !.k = "n", !.id = <<>>, !.segs = ss]
Big(e) == LET n == e.n * e.k + e.k - 1 IN
          IF n <= 65535 THEN e.r = "ok" /\ e.d = "ok" /\ e.same ELSE e.r = "err"
VEnc(e) == IF e.v.ty = "bad" THEN e.r = "err" ELSE e.r = "ok" /\ e.by = EncV(e.v) /\ e.id = Id(e.v.ty)
VDec(e) == LET x == DecV(e.ty, e.by) IN
           /\ e.r \in {"ok", "err"}
           /\ ~x.free => /\ e.r = (IF x.ok THEN "ok" ELSE "err")
                         /\ x.ok => e.v.b = x.v /\ e.used = x.i - 1
MDec(e) == LET x == DecMsg(e.by) IN
           /\ e.r = x.r
           /\ e.r = "ok" => e.s = x.s /\ e.d = x.d /\ e.v.b = x.rest /\ e.id = x.id

ToSet2(s) == {s[i] : i \in 1..Len(s)}
Step ==
  LET e == Ev IN
  CASE e.e = "text"  -> Text(e) /\ Skip
    [] e.e = "enc"   -> e.r = "ok" /\ e.by = EncPath(e.p) /\ Skip
    [] e.e = "dec"   -> Dec1(e) /\ Skip
    [] e.e = "sdec"  -> SDec(e) /\ Skip
    [] e.e = "peq"   -> e.r = (e.p = e.p2) /\ e.t = (e.p = e.p2) /\ Skip
    [] e.e = "setp"  -> e.q = (IF e.set < 0 THEN e.p ELSE [e.p EXCEPT !.t = e.set]) /\ Skip
    [] e.e = "build" -> Build(e) /\ Skip
    [] e.e = "big"   -> Big(e) /\ Skip
    [] e.e = "venc"  -> VEnc(e) /\ Skip
    [] e.e = "vdec"  -> VDec(e) /\ Skip
    [] e.e = "mdec"  -> MDec(e) /\ Skip
    [] e.e = "pre"   -> Preserialise(e.slot, e.v, e.r)
    [] e.e = "dropp" -> DropPre(e.slot)
    [] e.e = "drop"  -> DropMsg(e.m)
    [] e.e = "sent"  -> /\ SendMsg(e.m, e.way, e.dst, e.hasfrom, e.from, e.v, e.src, e.slot, e.r)
                        /\ e.env = (e.r = "ok")
                        /\ e.r = "ok" => e.es = pend'[e.m].s /\ e.ed = pend'[e.m].d
    [] e.e = "frame" -> OnWire(e.m, e.by) /\ e.ln = Len(e.by) /\ e.same /\ Skip
    [] e.e = "got"   -> /\ Arrive(e.m, e.then, e.r, e.ss)
                        /\ e.r = "ok" => e.s = msgs'[e.m].s /\ e.d = msgs'[e.m].d /\ e.id = Id(msgs'[e.m].v.ty)
    [] e.e = "clone" -> CloneMsg(e.m, e.n, e.r)
    [] e.e = "read"  -> /\ ReadMsg(e.m, e.ty, e.r, e.v)
                        /\ (e.r = "nomatch" \/ e.via = "into") => e.s = msgs[e.m].s /\ e.d = msgs[e.m].d
                        /\ e.r = "nomatch" => e.ss = msgs[e.m].ss
    [] e.e = "match" -> MatchMsg(e.m, ToSet2(e.list), e.r, e.v)
    [] OTHER -> FALSE

TNext == l <= Len(T) /\ Step /\ l' = l + 1 /\ tr' = tr
TSpec == TInit /\ [][TNext]_tvars
Record == TLCSet(tr, IF TLCGet(tr) < l THEN l ELSE TLCGet(tr))
AllChecked == LET bad == {t \in 1..NT : TLCGet(t) # Len(Traces[t].t) + 1}
              IN \A t \in bad : Print(<<"REJECT", Traces[t].id, TLCGet(t)>>, TRUE)
=============================================================================
