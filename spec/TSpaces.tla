------------------------------- MODULE TSpaces -----------------------------
(***************************************************************************)
(* Recorded histories of the packet numbers of several real connections    *)
(* against Spaces.  Steps:                                                 *)
(*   next   conn, space, out, and on success pn and bytes                  *)
(*   build  conn, kind, out, and on success pn, pnbytes, first (the first  *)
(*          byte of the header), and what went onto the wire: wire is      *)
(*          "none" (not serialized), "err", or "ok" with the number wirepn *)
(*          and the first byte wirefirst that the peer uncovers            *)
(*   jump   conn, space, pn                                                *)
(*   ack    conn, space, pn: largest acknowledged number                   *)
(*   quiet  what: anything that must not use up a number                   *)
(***************************************************************************)
EXTENDS Judge, Json, IOUtils, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)
Show == IOEnv.SHOW = "1"

VARIABLES h, l, last, slack, packets, acked
S == INSTANCE Spaces WITH SpaceNames <- {"initial", "handshake", "app"}, Numbers <- {},
                          Zero <- PN!PnZero, Succ <- LAMBDA x : PN!PnAdd(x, PN!PnOne),
                          Less <- LAMBDA x, y : PN!PnLess(x, y)
vars == <<h, l, last, slack, packets, acked>>

Steps == Trace[h].steps
E == Steps[l]
More == l <= Len(Steps)
Advance == l' = l + 1 /\ UNCHANGED h

Init ==
    /\ h \in 1..Len(Trace) /\ l = 1
    /\ S!InitFor(1..Trace[h].conns)
    /\ acked = [c \in 1..Trace[h].conns |-> [s \in {"initial", "handshake", "app"} |-> <<>>]]

Proper(pn, bytes, c, s) ==
    /\ Len(bytes) \in 1..4
    /\ PN!SafeLength(pn, acked[c][s], Len(bytes))
    /\ bytes = PN!Truncate(pn, Len(bytes))

Number ==
    /\ More /\ E.op = "next" /\ E.out = "ok" /\ Len(E.bytes) \in 1..4
    /\ S!Number(E.conn, E.space, E.pn)
    /\ Proper(E.pn, E.bytes, E.conn, E.space)
    /\ UNCHANGED acked /\ Advance
\* So far from what was acknowledged that no encoding is safe: no packet can carry the
\* number, and still it is not handed out again.
Overlong ==
    /\ More /\ E.op = "next" /\ E.out = "ok" /\ Len(E.bytes) \notin 1..4
    /\ S!Number(E.conn, E.space, E.pn)
    /\ TruncationAllowed(E.pn, acked[E.conn][E.space], E.out, E.bytes)
    /\ UNCHANGED acked /\ Advance
NoNumber ==
    /\ More /\ E.op = "next" /\ E.out = "err"
    /\ \E pn \in S!Candidates(E.conn, E.space) : TruncationAllowed(pn, acked[E.conn][E.space], E.out, E.bytes)
    /\ S!Fail(E.conn, E.space)
    /\ UNCHANGED acked /\ Advance

SpaceOfKind(k) == k      \* initial and handshake packets have spaces of their own
Build ==
    /\ More /\ E.op = "build" /\ E.out = "ok"
    /\ S!Build(E.conn, SpaceOfKind(E.kind), E.pn, l)
    /\ Proper(E.pn, E.pnbytes, E.conn, SpaceOfKind(E.kind))
    /\ E.first % 4 = Len(E.pnbytes) - 1
    /\ E.wire = "ok" => E.wirepn = E.pn /\ E.wirefirst % 4 = Len(E.pnbytes) - 1
    /\ E.wire # "panic"
    /\ UNCHANGED acked /\ Advance
NoBuild ==
    /\ More /\ E.op = "build" /\ E.out = "err"
    /\ S!Fail(E.conn, SpaceOfKind(E.kind))
    /\ UNCHANGED acked /\ Advance
Jump == /\ More /\ E.op = "jump" /\ S!Jump(E.conn, E.space, E.pn) /\ UNCHANGED acked /\ Advance
Ack == /\ More /\ E.op = "ack" /\ acked' = [acked EXCEPT ![E.conn][E.space] = <<E.pn>>]
       /\ S!Quiet /\ Advance
Quiet == /\ More /\ E.op = "quiet" /\ S!Quiet /\ UNCHANGED acked /\ Advance

Next == Number \/ Overlong \/ NoNumber \/ Build \/ NoBuild \/ Jump \/ Ack \/ Quiet
Spec == Init /\ [][Next]_vars
Report ==
    /\ S!NoNonceTwice
    /\ ~More => PrintT(<<"ACCEPT", h>>)
    /\ Show /\ More => PrintT(<<"AT", h, l>>)
=============================================================================
