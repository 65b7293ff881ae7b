---------------------------- MODULE DatagramsMC ----------------------------
(* Design model of a datagram socket's owner.  The reader is woken once when  *)
(* datagrams arrive, reads them one by one into its buffer and decodes the    *)
(* frame at the front of it; the writer keeps a queue of what is to be sent.  *)
(* Bytes are abstract: 10 + n begins a frame with n bytes of content, a       *)
(* content byte is 1, anything else is rubbish.                                *)
(* Variants that must be refuted: "keep" (what was not decoded stays in the   *)
(* buffer), "stop" (an empty datagram ends the reading), "hold" (what cannot  *)
(* be sent stays at the front of the queue).                                   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Most, MostOut, Variant
Kinds == {<<>>, <<11, 1>>, <<12, 1, 1>>, <<12, 1>>, <<10>>, <<11>>, <<0>>, <<11, 1, 10>>, <<1, 1>>, <<13, 0, 11, 1>>}
VARIABLES sock, woken, pc, buf, got, meant, outq, sent, gone, asked, full
vars == <<sock, woken, pc, buf, got, meant, outq, sent, gone, asked, full>>

Frame(b) == IF b # <<>> /\ b[1] >= 10 /\ Len(b) - 1 >= b[1] - 10 THEN SubSeq(b, 1, b[1] - 9) ELSE <<>>
\* what the datagram alone means
Meaning(d) == LET f == Frame(d) IN IF f = <<>> THEN <<>> ELSE <<f>>

Init == /\ sock = <<>> /\ woken = FALSE /\ pc = "idle" /\ buf = <<>> /\ got = <<>> /\ meant = <<>>
        /\ outq = <<>> /\ sent = 0 /\ gone = 0 /\ asked = 0 /\ full = FALSE
Arrive(d) == /\ Len(meant) + Len(sock) < Most
             /\ sock' = Append(sock, d) /\ woken' = TRUE
             /\ UNCHANGED <<pc, buf, got, meant, outq, sent, gone, asked, full>>
Wake == pc = "idle" /\ woken /\ woken' = FALSE /\ pc' = "read" /\ UNCHANGED <<sock, buf, got, meant, outq, sent, gone, asked, full>>
Read == /\ pc = "read"
        /\ IF sock = <<>>
           THEN pc' = "idle" /\ UNCHANGED <<sock, buf, got, meant>>
           ELSE LET d == Head(sock)
                    b == IF Variant = "keep" THEN buf \o d ELSE d
                    f == Frame(b)
                IN /\ sock' = Tail(sock)
                   /\ meant' = Append(meant, Meaning(d))
                   /\ got' = Append(got, IF f = <<>> THEN <<>> ELSE <<f>>)
                   /\ buf' = IF f = <<>> THEN b ELSE SubSeq(b, Len(f) + 1, Len(b))
                   /\ pc' = IF Variant = "stop" /\ d = <<>> THEN "idle" ELSE "read"
        /\ UNCHANGED <<woken, outq, sent, gone, asked, full>>
\* k: whether it can be sent at all
RECURSIVE Flush(_)
Flush(q) == IF q = <<>> THEN [q |-> <<>>, s |-> 0, g |-> 0]
            ELSE IF Head(q) THEN LET r == Flush(Tail(q)) IN [r EXCEPT !.s = @ + 1]
            ELSE IF Variant = "hold" THEN [q |-> q, s |-> 0, g |-> 0]
            ELSE LET r == Flush(Tail(q)) IN [r EXCEPT !.g = @ + 1]
Try(q) == IF full THEN outq' = q /\ UNCHANGED <<sent, gone>>
          ELSE LET r == Flush(q) IN outq' = r.q /\ sent' = sent + r.s /\ gone' = gone + r.g
Send(k) == /\ asked < MostOut /\ asked' = asked + 1 /\ Try(Append(outq, k))
           /\ UNCHANGED <<sock, woken, pc, buf, got, meant, full>>
\* the socket takes nothing more for a while, and the writer is told when it does again
Full == ~full /\ full' = TRUE /\ UNCHANGED <<sock, woken, pc, buf, got, meant, outq, sent, gone, asked>>
Room == /\ full /\ full' = FALSE
        /\ LET r == Flush(outq) IN outq' = r.q /\ sent' = sent + r.s /\ gone' = gone + r.g
        /\ UNCHANGED <<sock, woken, pc, buf, got, meant, asked>>
Next == (\E d \in Kinds : Arrive(d)) \/ Wake \/ Read \/ (\E k \in BOOLEAN : Send(k)) \/ Full \/ Room
Spec == Init /\ [][Next]_vars
\* each datagram means what it means alone
Alone == got = meant
\* the owner does not go to sleep over unread datagrams, nor over sendable messages
Awake == (pc = "idle" /\ ~woken => sock = <<>>) /\ (~full => outq = <<>>)
\* nothing is lost or sent twice
Sum   == sent + gone + Len(outq) = asked
=============================================================================
