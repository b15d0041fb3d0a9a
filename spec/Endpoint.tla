------------------------------ MODULE Endpoint -----------------------------
(***************************************************************************)
(* Connections over their lifetime: for each packet number space the last  *)
(* number handed out, the largest acknowledged and the largest received    *)
(* one, and the keys to send and to receive with.  Each operation is on    *)
(* one connection; reading a datagram is an operation that changes none.   *)
(*                                                                         *)
(* What a datagram is, and what a connection makes of it, is left to the   *)
(* instance: Reading(conn, d) is [ok, v], v the packets read.  TEndpoint   *)
(* puts bytes and the wire format there, MCEndpoint abstract packets.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Base, Size, Top, MaxLen,   \* of PacketNumbers
          SpaceNames,
          Reading(_, _)
PN == INSTANCE PacketNumbers

VARIABLE conns     \* name -> space -> [last, acked, received, local, remote]; <<>>: none, <<x>>: x

FreshSpace == [last |-> <<>>, acked |-> <<>>, received |-> <<>>, local |-> <<>>, remote |-> <<>>]
\* Keys of the initial space are there from the start.
FreshConn(local, remote) ==
    [s \in SpaceNames |-> IF s = "initial" THEN [FreshSpace EXCEPT !.local = local, !.remote = remote]
                          ELSE FreshSpace]

Install(c, s, local, remote) ==
    conns' = [conns EXCEPT ![c][s].local = local, ![c][s].remote = remote]
Received(c, s, pn) == conns' = [conns EXCEPT ![c][s].received = pn]
Acked(c, s, pn) == conns' = [conns EXCEPT ![c][s].acked = pn]
\* Numbers up to pn were used for packets that do not matter here.
Skip(c, s, pn) == conns' = [conns EXCEPT ![c][s].last = <<pn>>]

\* Numbers start at 0; this library starts at 1.
NextNumbers(x) == IF x.last = <<>> THEN {PN!PnZero, PN!PnOne} ELSE {PN!PnAdd(x.last[1], PN!PnOne)}
Safe(x, pn) == \E n \in 1..MaxLen : PN!SafeLength(pn, x.acked, n)
\* A packet leaves with number pn in n digits, sealed with key.
Send(c, s, pn, n, key) ==
    LET x == conns[c][s] IN
    /\ x.local = <<key>>
    /\ pn \in NextNumbers(x)
    /\ n \in 1..MaxLen /\ PN!SafeLength(pn, x.acked, n)
    /\ conns' = [conns EXCEPT ![c][s].last = <<pn>>]
\* No packet leaves; the number may be used up all the same.
Fails(c, s) ==
    LET x == conns[c][s] IN
    \E last \in {x.last} \cup {<<pn>> : pn \in NextNumbers(x)} : conns' = [conns EXCEPT ![c][s].last = last]
\* There is a reason not to send.
CannotSend(c, s) ==
    LET x == conns[c][s] IN x.local = <<>> \/ \E pn \in NextNumbers(x) : ~Safe(x, pn)

\* C22
Result(c, d) == Reading(conns[c], d)
Receive(c, d) == UNCHANGED conns
=============================================================================
