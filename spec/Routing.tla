------------------------------ MODULE Routing ------------------------------
(***************************************************************************)
(* A socket and its connections.  Datagrams wait in the network buffer of  *)
(* the socket (net); whoever waits for a new connection takes them out one *)
(* by one and either routes them to a connection (RouteOne) or opens a     *)
(* connection (Open).  live is the table of connections by issued id; each *)
(* has its keys and the queue of datagrams that wait for its user.         *)
(*                                                                         *)
(* What a datagram is stays open here: Opening(d), it starts with a        *)
(* version 1 Initial packet; Dest(d), the id it is addressed to, NoId when *)
(* there is none that could be an issued one; KeysFor(d), the keys a       *)
(* server derives from it.                                                 *)
(***************************************************************************)
EXTENDS Sequences, Integers, FiniteSets, TLC

CONSTANTS Opening(_), Dest(_), KeysFor(_), NoId
VARIABLES live, net
vars == <<live, net>>

Init == live = <<>> /\ net = <<>>

IsLive(id) == id \in DOMAIN live

\* The datagram is one that opens a connection now.
Fresh(d) == Opening(d) /\ ~IsLive(Dest(d))

Send(d) == net' = Append(net, d) /\ UNCHANGED live

RouteOne ==
    /\ net # <<>> /\ ~Fresh(Head(net))
    /\ net' = Tail(net)
    /\ live' = LET d == Head(net) IN
               IF IsLive(Dest(d)) THEN [live EXCEPT ![Dest(d)].queue = Append(@, d)] ELSE live

NewConnection(d) == [keys |-> KeysFor(d), queue |-> <<>>]

Open(id) ==
    /\ net # <<>> /\ Fresh(Head(net))
    /\ ~IsLive(id)
    /\ net' = Tail(net)
    /\ live' = (id :> NewConnection(Head(net))) @@ live

\* The user of a connection takes what waits for it.
Drain(id) ==
    /\ IsLive(id)
    /\ live' = [live EXCEPT ![id].queue = <<>>]
    /\ UNCHANGED net

\* The user drops the handle of a connection.
Drop(id) ==
    /\ IsLive(id)
    /\ live' = [x \in DOMAIN live \ {id} |-> live[x]]
    /\ UNCHANGED net
=============================================================================
