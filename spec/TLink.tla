------------------------------- MODULE TLink -------------------------------
(***************************************************************************)
(* Recorded histories of two real connections, one sending in a packet     *)
(* number space, the other receiving, against Link.  A line of the trace   *)
(* file is one history, [case, steps]; the steps are                       *)
(*   send     out, and on success pn and bytes, the truncated number       *)
(*   lose     last: numbers up to there are used up, the packets lost      *)
(*   deliver  i: the packet of send step i (counting successful ones)      *)
(*            arrives; out and pn are what the receiver made of it         *)
(*   ack      pn: the sender learns that pn was received                   *)
(***************************************************************************)
EXTENDS Judge, Json, IOUtils, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)
Show == IOEnv.SHOW = "1"

VARIABLES h, l, last, acked, largest, flying,
          sent,     \* the packets sent, in order
          slack     \* numbers that a refused send may have used up
K == INSTANCE Link WITH Base <- 256, Size <- 8, Top <- <<64, 0, 0, 0, 0, 0, 0, 0>>, MaxLen <- 4
vars == <<h, l, last, acked, largest, flying, sent, slack>>

Steps == Trace[h].steps
E == Steps[l]
More == l <= Len(Steps)
Advance == l' = l + 1 /\ UNCHANGED h

Init == h \in 1..Len(Trace) /\ l = 1 /\ K!Init /\ sent = <<>> /\ slack = 0

\* The numbers that can come next: refused sends may have used up some.
RECURSIVE After(_, _)
After(pn, n) == IF n = 0 THEN {pn} ELSE {pn} \cup After(PN!PnAdd(pn, PN!PnOne), n - 1)
Candidates == IF last = <<>> THEN After(PN!PnZero, slack + 1)
              ELSE After(PN!PnAdd(last[1], PN!PnOne), slack)

Send ==
    /\ More /\ E.op = "send" /\ E.out = "ok" /\ Len(E.bytes) \in 1..4
    /\ E.pn \in Candidates
    /\ PN!SafeLength(E.pn, acked, Len(E.bytes))
    /\ E.bytes = PN!Truncate(E.pn, Len(E.bytes))
    /\ last' = <<E.pn>>
    /\ flying' = flying \cup {[pn |-> E.pn, t |-> E.bytes]}
    /\ sent' = Append(sent, [pn |-> E.pn, t |-> E.bytes])
    /\ slack' = 0
    /\ UNCHANGED <<acked, largest>> /\ Advance

\* Only a number that four bytes are not enough for may be refused.
Refused ==
    /\ More /\ E.op = "send" /\ (E.out = "err" \/ (E.out = "ok" /\ Len(E.bytes) \notin 1..4))
    /\ \E pn \in Candidates : TruncationAllowed(pn, acked, E.out, E.bytes)
    /\ slack' = slack + 1
    /\ UNCHANGED <<last, acked, largest, flying, sent>> /\ Advance

Lose == /\ More /\ E.op = "lose"
        /\ K!Lose(E.last) /\ slack' = 0 /\ UNCHANGED sent /\ Advance

Deliver ==
    /\ More /\ E.op = "deliver"
    /\ LET x == sent[E.i] IN
       /\ K!NotFarBehind(x) => E.out = "ok" /\ E.pn = x.pn
       /\ E.out \in {"ok", "err"}
       \* Whatever is processed, is processed as what it is: the rest does not authenticate.
       /\ IF E.out = "ok" /\ E.pn = x.pn
          THEN largest' = IF largest = <<>> \/ PN!PnLess(largest[1], x.pn) THEN <<x.pn>> ELSE largest
          ELSE UNCHANGED largest
    /\ UNCHANGED <<last, acked, flying, sent, slack>> /\ Advance

Ack == /\ More /\ E.op = "ack" /\ K!Ack(E.pn) /\ UNCHANGED <<sent, slack>> /\ Advance

Next == Send \/ Refused \/ Lose \/ Deliver \/ Ack
Spec == Init /\ [][Next]_vars
Report ==
    /\ ~More => PrintT(<<"ACCEPT", h>>)
    /\ Show /\ More => PrintT(<<"AT", h, l>>)
=============================================================================
