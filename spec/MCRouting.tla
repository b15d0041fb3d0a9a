----------------------------- MODULE MCRouting -----------------------------
(***************************************************************************)
(* The routing design with a few ids and datagrams, and what it has to     *)
(* guarantee.  A datagram is [kind, to, n]: n tells datagrams apart.       *)
(* done, born and taken record what happened: done all datagrams that left *)
(* the network buffer, in order, with what became of each; born where in   *)
(* done a connection began; taken what its user got so far.                *)
(***************************************************************************)
EXTENDS Sequences, Integers, FiniteSets, TLC

CONSTANTS Ids,          \* ids that can be issued
          Foreign,      \* ids on the wire that are never issued
          MaxSent, MaxOpened

Kinds == {"initial", "other"}
MCNoId == "none"
MCOpening(d) == d.kind = "initial"
MCDest(d) == d.to
MCKeysFor(d) == <<"keys of", d.to>>

VARIABLES live, net, sent, opened, done, born, taken
R == INSTANCE Routing WITH Opening <- MCOpening, Dest <- MCDest, KeysFor <- MCKeysFor,
                           NoId <- MCNoId
vars == <<live, net, sent, opened, done, born, taken>>

Init == /\ R!Init
        /\ sent = 0 /\ opened = 0
        /\ done = <<>>
        /\ born = <<>> /\ taken = <<>>

Send(k, to) ==
    /\ sent < MaxSent
    /\ sent' = sent + 1
    /\ R!Send([kind |-> k, to |-> to, n |-> sent'])
    /\ UNCHANGED <<opened, done, born, taken>>

RouteOne ==
    /\ R!RouteOne
    /\ done' = Append(done, [d |-> Head(net), opened |-> FALSE])
    /\ UNCHANGED <<sent, opened, born, taken>>

Open(id) ==
    /\ opened < MaxOpened
    /\ opened' = opened + 1
    /\ R!Open(id)
    /\ done' = Append(done, [d |-> Head(net), opened |-> TRUE])
    /\ born' = (id :> Len(done')) @@ born
    /\ taken' = (id :> <<>>) @@ taken
    /\ UNCHANGED sent

Drain(id) ==
    /\ R!Drain(id) /\ live[id].queue # <<>>
    /\ taken' = [taken EXCEPT ![id] = @ \o live[id].queue]
    /\ UNCHANGED <<sent, opened, done, born>>

Drop(id) ==
    /\ R!Drop(id)
    /\ born' = [x \in DOMAIN born \ {id} |-> born[x]]
    /\ taken' = [x \in DOMAIN taken \ {id} |-> taken[x]]
    /\ UNCHANGED <<sent, opened, done>>

Next ==
    \/ \E k \in Kinds, to \in Ids \cup Foreign \cup {MCNoId} : Send(k, to)
    \/ RouteOne
    \/ \E id \in Ids : Open(id) \/ Drain(id) \/ Drop(id)

Fairness == WF_vars(RouteOne) /\ WF_vars(\E id \in Ids : Open(id))
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ Fairness

------------------------------------------------------------------------------
TypeOK == DOMAIN live \subseteq Ids /\ DOMAIN born = DOMAIN live /\ DOMAIN taken = DOMAIN live

\* C15: the user of a connection gets exactly the datagrams addressed to it while it lives,
\* each once, in order.
Addressed(id) ==
    LET For(x) == ~x.opened /\ x.d.to = id
        part == SubSeq(done, born[id] + 1, Len(done))
    IN  SelectSeq(part, For)
ExactlyOnceInOrder ==
    \A id \in DOMAIN live :
        taken[id] \o live[id].queue = [i \in 1..Len(Addressed(id)) |-> Addressed(id)[i].d]

\* C17: what opened a connection was a new Initial; its keys are those of that datagram.
RightKeys == \A id \in DOMAIN live :
    LET x == done[born[id]] IN
    x.opened /\ MCOpening(x.d) /\ live[id].keys = MCKeysFor(x.d)
\* ... and no new Initial was routed or lost instead.
OpensAll == [][(\E id \in Ids : Open(id)) <=> (net # <<>> /\ net' = Tail(net) /\ R!Fresh(Head(net)))]_vars

\* C18, C16: no step touches a connection it is not about.
Untouched == [][\A id \in DOMAIN live \cap DOMAIN live' :
                   /\ live'[id].keys = live[id].keys
                   /\ \/ live'[id].queue = live[id].queue
                      \/ live'[id].queue = <<>>
                      \/ net # <<>> /\ live'[id].queue = Append(live[id].queue, Head(net))]_vars
OneAtATime == [][Cardinality((DOMAIN live \ DOMAIN live') \cup (DOMAIN live' \ DOMAIN live)) <= 1]_vars
FreshStartsEmpty == [][\A id \in DOMAIN live' \ DOMAIN live : live'[id].queue = <<>>]_vars

\* C16: whatever arrives, everything that arrived is dealt with in the end.
Served == (opened < MaxOpened /\ Cardinality(DOMAIN live) < Cardinality(Ids) /\ net # <<>>)
            ~> (opened = MaxOpened \/ net = <<>> \/ DOMAIN live = Ids)
=============================================================================
