----------------------------- MODULE GenRouting ----------------------------
(***************************************************************************)
(* Behaviours of Routing, to be replayed on a real socket.  Simulated; the *)
(* sequence of operations is printed when it is long enough.  Ids are      *)
(* numbers, 0 stands for an id that is never issued.  A datagram is        *)
(* [kind, to, form]: form says how the id is written on the wire, only     *)
(* "exact" is that id.                                                     *)
(***************************************************************************)
EXTENDS Sequences, Integers, FiniteSets, TLC, Json

CONSTANTS N, Length
GIds == 1..N
GNoId == -1
GOpening(d) == d.kind = "initial"
GDest(d) == IF d.to = 0 \/ d.kind \in {"junk", "empty", "cut"}
              \/ (d.form # "exact" /\ d.kind # "onertt") THEN GNoId ELSE d.to
GKeysFor(d) == <<"keys of", d>>

VARIABLES live, net, ops
R == INSTANCE Routing WITH Opening <- GOpening, Dest <- GDest, KeysFor <- GKeysFor, NoId <- GNoId
vars == <<live, net, ops>>

Init == R!Init /\ ops = <<>>
Note(x) == ops' = Append(ops, x)

\* mostly datagrams that matter
\* TLC evaluates constant expressions once, so each choice has to depend on the state.
Choice(k) == RandomElement(1..(k + 0 * Len(ops)))
KindOf(k) == <<"initial", "initial", "initial", "onertt", "handshake", "zerortt", "version",
               "retry", "negotiation", "junk", "empty", "cut">>[k]
FormOf(k) == <<"exact", "exact", "exact", "exact", "exact", "exact", "seven", "nine", "padded",
               "stripped">>[k]

\* A choice is bound by \E over a singleton: a LET would make it anew at each use.
Send ==
    \E d \in {[kind |-> KindOf(Choice(12)), to |-> Choice(N + 1) - 1, form |-> FormOf(Choice(10))]} :
        /\ Len(net) < 8
        /\ R!Send(d)
        /\ Note([op |-> "send"] @@ d)

RECURSIVE Routed(_, _)
Routed(t, ds) ==
    IF ds = <<>> THEN [live |-> t, net |-> ds]
    ELSE LET d == Head(ds)
             there == GDest(d) \in DOMAIN t IN
         IF GOpening(d) /\ ~there THEN [live |-> t, net |-> ds]
         ELSE Routed(IF there THEN [t EXCEPT ![GDest(d)].queue = Append(@, d)] ELSE t, Tail(ds))

\* Waiting for a connection until one can be opened; the random source gives ids that are
\* taken first.
Accept ==
    \E x \in {Routed(live, net)} :
    /\ x.net # <<>>
    /\ DOMAIN x.live # GIds
    /\ \E id \in {RandomElement(GIds \ DOMAIN x.live)},
          k \in {IF DOMAIN x.live = {} THEN 0 ELSE Choice(4) - 1} :
       \E script \in {[i \in 1..(k + 1) |-> IF i = k + 1 THEN id ELSE RandomElement(DOMAIN x.live)]} :
           /\ live' = (id :> R!NewConnection(Head(x.net))) @@ x.live
           /\ net' = Tail(x.net)
           /\ Note([op |-> "accept", script |-> script])

Drain == \E id \in IF DOMAIN live = {} THEN {} ELSE {RandomElement(DOMAIN live)} :
             R!Drain(id) /\ Note([op |-> "drain", id |-> id])
Drop == \E id \in IF DOMAIN live = {} THEN {} ELSE {RandomElement(DOMAIN live)} :
             R!Drop(id) /\ Note([op |-> "drop", id |-> id])
Decode == /\ DOMAIN live # {} /\ UNCHANGED <<live, net>>
          /\ \E id \in {RandomElement(DOMAIN live)} : Note([op |-> "decode", id |-> id])

Next == Send \/ Accept \/ Drain \/ Drop \/ Decode
Spec == Init /\ [][Next]_vars
Emit == Len(ops) = Length => PrintT(<<"BEHAVIOUR", ToJson(ops)>>)
Going == Len(ops) < Length
=============================================================================
