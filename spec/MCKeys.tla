------------------------------- MODULE MCKeys ------------------------------
(***************************************************************************)
(* Two ends of a connection with KeyStates, and a network that keeps all   *)
(* packets and delivers them any number of times, under any other type: it *)
(* can rewrite the type of a packet, which the cleartext of a long header  *)
(* allows, but not seal.                                                   *)
(***************************************************************************)
EXTENDS KeyStates, TLC
CONSTANTS MaxPackets, MaxInstalls
VARIABLES keys,      \* per end
          net,       \* [kind, key, from, as]: as is the type the packet claims
          read,      \* what was read: [kind, key, at, from]
          had,       \* per end and space: keys that were ever installed, [local, remote]
          installs
vars == <<keys, net, read, had, installs>>
Ends == {"c", "s"}
Other(e) == IF e = "c" THEN "s" ELSE "c"
\* A key per direction, space and generation; no two of them are the same.
Key(e, s, n) == <<e, s, n>>
AllKeys == {Key(e, s, n) : e \in Ends, s \in SpaceNames, n \in 0..1}
InitialOf(e) == Fresh(Key(e, "initial", 0), Key(Other(e), "initial", 0))
Init ==
    /\ keys = [e \in Ends |-> InitialOf(e)]
    /\ net = {} /\ read = {} /\ installs = 0
    /\ had = [e \in Ends |-> [s \in SpaceNames |-> {InitialOf(e)[s]} \ {[local |-> None, remote |-> None]}]]
Install(e, s, l, r) ==
    /\ installs < MaxInstalls /\ installs' = installs + 1
    /\ l \in {None} \cup {Key(e, s, n) : n \in 0..1}
    /\ r \in {None} \cup {Key(Other(e), s, n) : n \in 0..1}
    /\ keys' = [keys EXCEPT ![e] = Installed(@, s, l, r)]
    /\ had' = [had EXCEPT ![e][s] = @ \cup {[local |-> l, remote |-> r]}]
    /\ UNCHANGED <<net, read>>
Send(e, kind) ==
    /\ kind \in Kinds /\ SendKey(keys[e], kind) # None
    /\ Cardinality(net) < MaxPackets
    /\ net' = net \cup {[kind |-> kind, key |-> SendKey(keys[e], kind), from |-> e]}
    /\ UNCHANGED <<keys, read, had, installs>>
\* The type bits are covered by the sealing: a packet of another type is not read even when
\* its key is that of the other type.
Deliver(p, e, as) ==
    /\ p \in net /\ as \in Kinds
    /\ Reads(keys[e], as, p.key) /\ as = p.kind
    /\ read' = read \cup {[kind |-> as, key |-> p.key, at |-> e, from |-> p.from]}
    /\ UNCHANGED <<keys, net, had, installs>>
Next ==
    \/ \E e \in Ends, s \in SpaceNames, l, r \in {None} \cup AllKeys : Install(e, s, l, r)
    \/ \E e \in Ends, kind \in Kinds : Send(e, kind)
    \/ \E p \in net, e \in Ends, as \in Kinds : Deliver(p, e, as)
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
\* C19
SealedWithOwnSpace ==
    \A p \in net : \E k \in had[p.from][SpaceOf(p.kind)] : k.local = p.key
ReadWithOwnSpace ==
    \A p \in read : /\ \E k \in had[p.at][SpaceOf(p.kind)] : k.remote = p.key
                    /\ p.from = Other(p.at)
NotBeforeKeys == \A p \in read : \E k \in had[p.at][SpaceOf(p.kind)] : k.remote # None
OthersUntouched ==
    [][\A e \in Ends, s, t \in SpaceNames : keys'[e][s] # keys[e][s] /\ keys'[e][t] # keys[e][t] => s = t]_vars
=============================================================================
