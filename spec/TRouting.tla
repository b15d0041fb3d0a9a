------------------------------ MODULE TRouting -----------------------------
(***************************************************************************)
(* Recorded histories of a real socket against Routing.  A line of the     *)
(* trace file is one history: [case, steps].  A step is an operation, what *)
(* came back, and the connection table afterwards: in histories of many    *)
(* connections only the entries that are new or differ from those after    *)
(* the step before (conns) and the ids that are no longer there (gone).    *)
(*                                                                         *)
(* Faults(e) are the properties that the next recorded step breaks in the  *)
(* state reached so far.  A step without fault is a step of Routing.  A    *)
(* step that breaks the property under check (IOEnv.PROP) is not explained *)
(* and the history is rejected; after a step that breaks another property  *)
(* nothing can be concluded and the history ends there.                    *)
(***************************************************************************)
EXTENDS Judge, Json, IOUtils, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
Show == IOEnv.SHOW = "1"

\* A datagram is [bs, from].
TNoId == <<>>
TOpening(d) == LET x == HeaderAt(d.bs, 1) IN x.ok /\ x.v.type = "initial" /\ x.v.version = Version1
TDest(d) == LET x == RoutingId(d.bs) IN IF x.ok THEN x.v ELSE TNoId

VARIABLES h, l, live, net,
          keys,     \* keys of the connections, as observed when they were opened
          over      \* "": going on, "end", or "other" after a step that breaks another property
\* Routing's own account of keys is symbolic here: the id the Initial was sent to.
TKeysFor(d) == HeaderAt(d.bs, 1).v.dcid
R == INSTANCE Routing WITH Opening <- TOpening, Dest <- TDest, KeysFor <- TKeysFor, NoId <- TNoId

Steps == Trace[h].steps
E == Steps[l]
More == over = "" /\ l <= Len(Steps)

\* The connection table after the step, as observed.
Diff(e) == "gone" \in DOMAIN e
Listed(e) == {e.conns[i].id : i \in 1..Len(e.conns)}
Gone(e) == {e.gone[i] : i \in 1..Len(e.gone)}
Ids(e) == IF Diff(e) THEN Listed(e) \cup (DOMAIN keys \ Gone(e)) ELSE Listed(e)
Entry(e, id) == LET P(c) == c.id = id IN First(e.conns, P).v
ObservedKeys(e, id) ==
    IF Diff(e) /\ id \notin Listed(e) THEN keys[id]
    ELSE [local |-> Entry(e, id).local, remote |-> Entry(e, id).remote]
NewIds(e) == IF Diff(e) THEN Listed(e) \ DOMAIN live ELSE Ids(e) \ DOMAIN live
\* Connections that were there before are there, with the same keys.
Kept(e, ids) ==
    IF Diff(e) THEN ids \cap (Gone(e) \cup Listed(e)) = {}
    ELSE \A id \in ids : id \in Ids(e) /\ ObservedKeys(e, id) = keys[id]

------------------------------------------------------------------------------
\* Whether somebody who waits for a connection now has nothing left to do but open one, or wait.
Idle == net = <<>>
Ready == net # <<>> /\ R!Fresh(Head(net))

RightKeys(e, d, id) ==
    LET mine == InitialKeys(e.o, "server", TKeysFor(d))
        theirs == InitialKeys(e.o, "client", TKeysFor(d))
    IN  mine.ok /\ theirs.ok
          /\ ObservedKeys(e, id) = [local |-> mine.v, remote |-> theirs.v]

AcceptFaults(e) ==
    IF e.out \in {"err", "panic", "hang"} THEN {"C16"}
    ELSE IF e.out = "timeout" THEN
        IF Ready THEN {"C16", "C17"}
        ELSE (IF NewIds(e) # {} THEN {"C17"} ELSE {})
               \cup (IF Kept(e, DOMAIN live) THEN {} ELSE {"C16", "C17", "C18"})
    ELSE \* opened
        IF Idle THEN {"C17"}
        ELSE IF ~Kept(e, DOMAIN live) THEN {"C16", "C17", "C18"}
        ELSE IF Cardinality(NewIds(e)) # 1 THEN {"C17", "C18"}
        ELSE LET id == CHOOSE x \in NewIds(e) : TRUE IN
             IF \/ Len(id) # IssuedIdLen
                \/ Entry(e, id).scid # id
                \/ e.handle # <<>> /\ e.handle # <<id>>
                \/ ~RightKeys(e, Head(net), id) THEN {"C17"} ELSE {}

\* Sent before the connection was opened, or to somebody else.
Queue(id) == live[id].queue
DrainFaults(e) ==
    IF e.out # "ok" THEN {"C15", "C18"}
    ELSE (IF e.got = Queue(e.id) THEN {} ELSE {"C15"})
           \cup (IF \E i \in 1..Len(e.got) : TDest(e.got[i]) # e.id THEN {"C15"} ELSE {})
           \cup (IF Queue(e.id) = <<>> /\ e.got # <<>> THEN {"C18"} ELSE {})
           \cup (IF Kept(e, DOMAIN live) THEN {} ELSE {"C18"})

DropFaults(e) ==
    IF e.out # "ok" THEN {"C18"}
    ELSE IF Ids(e) = DOMAIN live \ {e.id} /\ Kept(e, DOMAIN live \ {e.id}) THEN {} ELSE {"C18"}

\* Decoding on behalf of a connection uses its keys.
Receiver(id) == [keys |-> [initial |-> <<keys[id].remote>>, handshake |-> <<>>, app |-> <<>>],
                 largest |-> [initial |-> <<>>, handshake |-> <<>>, app |-> <<>>]]
DecodeVerdict(e) ==
    LET id == TDest([bs |-> e.bs]) IN
    IF ~R!IsLive(id) THEN (IF e.out = "err" THEN "ok" ELSE "decoded for nobody")
    ELSE JDecode([bs |-> e.bs, conn |-> Receiver(id), o |-> e.o, out |-> e.out,
                  packets |-> e.packets, must |-> FALSE, forged |-> FALSE, may |-> FALSE])
DecodeFaults(e) == IF DecodeVerdict(e) \in {"ok", "oracle"} THEN {} ELSE {"C15"}

Faults(e) ==
    CASE e.op = "send" -> {}
      [] e.op = "accept" -> AcceptFaults(e)
      [] e.op = "drain" -> DrainFaults(e)
      [] e.op = "drop" -> DropFaults(e)
      [] e.op = "decode" -> DecodeFaults(e)

------------------------------------------------------------------------------
Init == /\ h \in 1..Len(Trace)
        /\ l = 1
        /\ R!Init
        /\ keys = <<>>
        /\ over = ""

\* Taking datagrams that open nothing is not recorded; it happens while somebody waits.
Silent ==
    /\ More /\ E.op = "accept" /\ E.out \in {"opened", "timeout"} /\ R!RouteOne
    /\ UNCHANGED <<h, l, keys, over>>

Explained == More /\ (E.op = "accept" => E.out \notin {"opened", "timeout"} \/ Idle \/ Ready) /\ Faults(E) = {}
Advance == l' = l + 1 /\ over' = (IF l = Len(Steps) THEN "end" ELSE "") /\ UNCHANGED h

Send == Explained /\ E.op = "send" /\ R!Send([bs |-> E.bs, from |-> E.from]) /\ Advance /\ UNCHANGED keys

Opened ==
    /\ Explained /\ E.op = "accept" /\ E.out = "opened"
    /\ \E id \in NewIds(E) :
          /\ R!Open(id)
          /\ keys' = (id :> ObservedKeys(E, id)) @@ keys
    /\ Advance
TimedOut == Explained /\ E.op = "accept" /\ E.out = "timeout" /\ Advance /\ UNCHANGED <<live, net, keys>>

Drain == Explained /\ E.op = "drain" /\ R!Drain(E.id) /\ Advance /\ UNCHANGED keys
Drop ==
    /\ Explained /\ E.op = "drop" /\ R!Drop(E.id)
    /\ keys' = [x \in DOMAIN keys \ {E.id} |-> keys[x]]
    /\ Advance
Decode == Explained /\ E.op = "decode" /\ Advance /\ UNCHANGED <<live, net, keys>>

\* The step breaks a property that is not under check.
GiveUp ==
    /\ More /\ (E.op = "accept" => E.out \notin {"opened", "timeout"} \/ Idle \/ Ready)
    /\ Faults(E) # {} /\ Prop \notin Faults(E) /\ Prop # "ALL"
    /\ over' = "other" /\ UNCHANGED <<h, l, live, net, keys>>

Next == Silent \/ Send \/ Opened \/ TimedOut \/ Drain \/ Drop \/ Decode \/ GiveUp
Spec == Init /\ [][Next]_<<h, l, live, net, keys, over>>

Report ==
    /\ over # "" => PrintT(<<"ACCEPT", h>>)
    /\ over = "other" => PrintT(<<"OTHER", h, l>>)
    /\ Show /\ More => PrintT(<<"AT", h, l>>)
    /\ Show /\ More /\ (E.op # "accept" \/ Idle \/ Ready) => PrintT(<<"FAULTS", Faults(E)>>)
    /\ More /\ E.op = "decode" => (DecodeVerdict(E) # "oracle" \/ PrintT(<<"ORACLE", h, l>>))
    /\ More /\ E.op = "accept" /\ E.out = "opened" /\ Ready =>
          (InitialKeys(E.o, "server", TKeysFor(Head(net))).ok \/ PrintT(<<"ORACLE", h, l>>))
=============================================================================
