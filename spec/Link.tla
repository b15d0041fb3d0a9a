-------------------------------- MODULE Link -------------------------------
(***************************************************************************)
(* One packet number space between a sender and a receiver: numbers are    *)
(* truncated when they are sent, get lost, overtake each other, arrive     *)
(* more than once, and are acknowledged late.  The digits of numbers are   *)
(* those of PacketNumbers; MaxLen is the largest length on the wire.       *)
(*                                                                         *)
(* last: last number handed out (<<>>: none yet); acked: largest number    *)
(* the sender knows to be received; largest: largest number the receiver   *)
(* processed; flying: what is on the wire, [pn, t].                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Base, Size, Top, MaxLen
PN == INSTANCE PacketNumbers

VARIABLES last, acked, largest, flying
vars == <<last, acked, largest, flying>>

Init == last = <<>> /\ acked = <<>> /\ largest = <<>> /\ flying = {}

\* Packet numbers of a space start at 0; this library starts at 1.
IsNext(pn) == IF last = <<>> THEN pn \in {PN!PnZero, PN!PnOne} ELSE pn = PN!PnAdd(last[1], PN!PnOne)

Send(pn, n) ==
    /\ IsNext(pn)
    /\ n \in 1..MaxLen /\ PN!SafeLength(pn, acked, n)
    /\ last' = <<pn>>
    /\ flying' = flying \cup {[pn |-> pn, t |-> PN!Truncate(pn, n)]}
    /\ UNCHANGED <<acked, largest>>

\* Numbers up to pn are handed out, and the packets all lost.
Lose(pn) ==
    /\ last # <<>> => PN!PnLess(last[1], pn)
    /\ last' = <<pn>>
    /\ UNCHANGED <<acked, largest, flying>>

\* The packet is behind the newest received one by less than half of the window.
NotFarBehind(x) ==
    largest = <<>> \/ PN!PnLess(PN!PnAdd(largest[1], PN!PnOne), PN!PnAdd(x.pn, PN!HalfWindow(Len(x.t))))
Recovered(x) == PN!Reconstruct(largest, x.t) = x.pn

\* A packet that is not recovered does not authenticate, and is not processed.
Deliver(x) ==
    /\ x \in flying
    /\ largest' = IF Recovered(x) /\ (largest = <<>> \/ PN!PnLess(largest[1], x.pn))
                  THEN <<x.pn>> ELSE largest
    /\ UNCHANGED <<last, acked, flying>>

\* The sender learns that pn was received.
Ack(pn) ==
    /\ largest # <<>> /\ PN!PnLeq(pn, largest[1])
    /\ acked' = IF acked = <<>> \/ PN!PnLess(acked[1], pn) THEN <<pn>> ELSE acked
    /\ UNCHANGED <<last, largest, flying>>

------------------------------------------------------------------------------
\* C05
AllRecovered == \A x \in flying : NotFarBehind(x) => Recovered(x)
\* A packet that is newer than all received ones is always recovered.
NewestRecovered ==
    \A x \in flying : (largest = <<>> \/ PN!PnLess(largest[1], x.pn)) => Recovered(x)
AckedWasReceived == acked # <<>> => largest # <<>> /\ PN!PnLeq(acked[1], largest[1])
=============================================================================
