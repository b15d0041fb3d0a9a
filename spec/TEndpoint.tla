----------------------------- MODULE TEndpoint -----------------------------
(***************************************************************************)
(* Recorded histories of several real connections, on bytes, against       *)
(* Endpoint.  The specification keeps the state of the connections itself: *)
(* nothing of it is taken from the code.  A history has o, the points of   *)
(* the ideal functions, and conns, each [dcid, scid, local, remote] with   *)
(* the initial keys.  Steps, on connection conn:                           *)
(*   install   space, local, remote     keys, <<>> or <<k>>                *)
(*   received, acked   space, pn        <<>> or <<pn>>                     *)
(*   skip      space, pn                                                   *)
(*   send      kind, token, frames, out, bs                                *)
(*   recv      bs, out, packets         decoding a datagram                *)
(***************************************************************************)
EXTENDS Judge, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
Show == IOEnv.SHOW = "1"
VARIABLES h, l, conns
vars == <<h, l, conns>>

H == Trace[h]
Steps == H.steps
E == Steps[l]
More == l <= Len(Steps)
Advance == l' = l + 1 /\ UNCHANGED h

Names == {"initial", "handshake", "app"}
Rx(x) == [keys |-> [s \in Names |-> x[s].remote], largest |-> [s \in Names |-> x[s].received]]
ReadingOf(x, d) == DecodeDatagram(d.bs, Rx(x), d.o)
C == INSTANCE Endpoint WITH Base <- 256, Size <- 8, Top <- <<64, 0, 0, 0, 0, 0, 0, 0>>, MaxLen <- 4,
                            SpaceNames <- Names, Reading <- ReadingOf

Init == h \in 1..Len(Trace) /\ l = 1
        /\ conns = [c \in 1..Len(Trace[h].conns) |-> C!FreshConn(<<Trace[h].conns[c].local>>, <<Trace[h].conns[c].remote>>)]

Install == E.op = "install" /\ C!Install(E.conn, E.space, E.local, E.remote)
Received == E.op = "received" /\ C!Received(E.conn, E.space, E.pn)
Acked == E.op = "acked" /\ C!Acked(E.conn, E.space, E.pn)
Skip == E.op = "skip" /\ C!Skip(E.conn, E.space, E.pn)

\* A peer that received everything that was acknowledged, and nothing else, reads it.
Send ==
    /\ E.op = "send" /\ E.out = "ok"
    /\ LET x == conns[E.conn][E.kind]
           peer == [keys |-> [s \in Names |-> IF s = E.kind THEN x.local ELSE <<>>],
                    largest |-> [s \in Names |-> IF s = E.kind THEN x.acked ELSE <<>>]]
           r == DecodeDatagram(E.bs, peer, H.o)
       IN  /\ x.local # <<>> /\ r.ok /\ Len(r.v) = 1
           /\ LET y == r.v[1] IN
              /\ y.kind = E.kind /\ y.version = Version1
              /\ y.dcid = H.conns[E.conn].dcid /\ y.scid = H.conns[E.conn].scid
              /\ y.token = E.token /\ y.frames = E.frames
              /\ C!Send(E.conn, E.kind, y.pn, Len(y.pnbytes), x.local[1])
SendFails == E.op = "send" /\ E.out = "err" /\ C!CannotSend(E.conn, E.kind) /\ C!Fails(E.conn, E.kind)

Recv ==
    /\ E.op = "recv"
    /\ LET d == [bs |-> E.bs, o |-> H.o]
           r == C!Result(E.conn, d) IN
       /\ C!Receive(E.conn, d)
       /\ IF ~r.ok
          THEN /\ r.why = "oracle" => (PrintT(<<"ORACLE", h, l>>) /\ FALSE)
               /\ IF r.why = "sample" THEN Returned(E) ELSE E.out = "err"
          ELSE IF E.out = "ok" THEN SamePackets(E.packets, r.v)
          ELSE E.out = "err" /\ DatagramRefusable(r.v)

Next == More /\ Advance /\ (Install \/ Received \/ Acked \/ Skip \/ Send \/ SendFails \/ Recv)
Spec == Init /\ [][Next]_vars
Report ==
    /\ ~More => PrintT(<<"ACCEPT", h>>)
    /\ Show /\ More => PrintT(<<"AT", h, l>>)
=============================================================================
