------------------------------- MODULE Spaces ------------------------------
(***************************************************************************)
(* The packet numbers of several connections.  A connection has a counter  *)
(* per packet number space.  Building a packet takes the next number; the  *)
(* building may fail before or after the number was taken, and a packet    *)
(* that was built may be serialized, also more than once, or never.        *)
(*                                                                         *)
(* last[c][s]: last number handed out (<<>>: none yet); slack[c][s]:       *)
(* failures since then, each of which may have used a number up; packets:  *)
(* what was built, [conn, space, pn, id], id telling them apart.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS SpaceNames, Numbers, Zero, Succ(_), Less(_, _)
VARIABLES last, slack, packets
vars == <<last, slack, packets>>

InitFor(conns) ==
    /\ last = [c \in conns |-> [s \in SpaceNames |-> <<>>]]
    /\ slack = [c \in conns |-> [s \in SpaceNames |-> 0]]
    /\ packets = {}

RECURSIVE From(_, _)
From(pn, n) == IF n = 0 THEN {pn} ELSE {pn} \cup From(Succ(pn), n - 1)
\* Numbers start at 0 or at 1, and follow each other but for those failures used up.
Candidates(c, s) ==
    IF last[c][s] = <<>> THEN From(Zero, slack[c][s] + 1)
    ELSE From(Succ(last[c][s][1]), slack[c][s])

Hand(c, s, pn) ==
    /\ pn \in Candidates(c, s)
    /\ last' = [last EXCEPT ![c][s] = <<pn>>]
    /\ slack' = [slack EXCEPT ![c][s] = 0]

\* A number is asked for directly.
Number(c, s, pn) == Hand(c, s, pn) /\ UNCHANGED packets
\* A packet is built with it.
Build(c, s, pn, id) ==
    Hand(c, s, pn) /\ packets' = packets \cup {[conn |-> c, space |-> s, pn |-> pn, id |-> id]}
\* Building, or asking for a number, fails.
Fail(c, s) ==
    /\ slack' = [slack EXCEPT ![c][s] = @ + 1]
    /\ UNCHANGED <<last, packets>>
\* The space is ahead, after more packets than anyone wants to enumerate.
Jump(c, s, pn) ==
    /\ last[c][s] # <<>> => Less(last[c][s][1], pn)
    /\ last' = [last EXCEPT ![c][s] = <<pn>>]
    /\ slack' = [slack EXCEPT ![c][s] = 0]
    /\ UNCHANGED packets
\* Receiving, being acknowledged, installing keys, serializing: no number is taken.
Quiet == UNCHANGED vars

------------------------------------------------------------------------------
\* C06
NoNonceTwice ==
    \A p, q \in packets : p.conn = q.conn /\ p.space = q.space /\ p.pn = q.pn => p = q
BehindCounter ==
    \A p \in packets : last[p.conn][p.space] # <<>> /\ ~Less(last[p.conn][p.space][1], p.pn)
\* Counters only grow, and one at a time.
Increasing ==
    [][\A c \in DOMAIN last : \A s \in SpaceNames :
          last'[c][s] # last[c][s] => /\ last'[c][s] # <<>>
                                      /\ last[c][s] # <<>> => Less(last[c][s][1], last'[c][s][1])]_vars
Independent ==
    [][\A c, d \in DOMAIN last : \A s, t \in SpaceNames :
          last'[c][s] # last[c][s] /\ last'[d][t] # last[d][t] => c = d /\ s = t]_vars
=============================================================================
