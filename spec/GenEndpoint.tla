---------------------------- MODULE GenEndpoint ----------------------------
(* Behaviours of Endpoint, to be replayed on real connections: 1 and 2, and 3 and 4, are the
   ends of a connection.  Packets are numbered in the order in which they are made; keys are
   named by a generation, 0 for none, and are those of the pair. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Length
VARIABLES made, ops      \* made: [to, kind, gen] of each packet
vars == <<made, ops>>
Choice(k) == RandomElement(1..(k + 0 * Len(ops)))
Note(x) == ops' = Append(ops, x)
Init == made = <<>> /\ ops = <<>>
Space(k) == <<"initial", "handshake", "app">>[k]
Kind(k) == <<"initial", "handshake", "zerortt", "onertt">>[k]
Peer(c) == IF c % 2 = 1 THEN c + 1 ELSE c - 1
Harm(k) == IF k > 5 THEN "none" ELSE <<"bit", "cut", "tail", "type", "first">>[k]
\* mostly the one it is for
At(p) == IF Choice(4) = 1 THEN Choice(4) ELSE made[p].to
Next ==
    \E what \in {Choice(20)} :
        CASE what <= 3 \/ (Len(ops) < 6 /\ what <= 12) ->
              \E c \in {Choice(4)}, s \in {Space(1 + Choice(2))}, g \in {Choice(4) - 1} :
                  UNCHANGED made /\ Note([op |-> "install", conn |-> c, space |-> s, gen |-> g])
          [] what <= 5 ->
              \E c \in {Choice(4)}, s \in {Space(Choice(3))}, w \in {<<"received", "acked", "skip">>[Choice(3)]}, d \in {Choice(6)} :
                  UNCHANGED made /\ Note([op |-> w, conn |-> c, space |-> s, far |-> d])
          [] what <= 9 \/ Len(made) = 0 ->
              \E c \in {Choice(4)}, k \in {Kind(Choice(2))} :
                  /\ made' = Append(made, [to |-> Peer(c), kind |-> k])
                  /\ Note([op |-> "send", conn |-> c, kind |-> k])
          [] what <= 12 ->
              \E c \in {Choice(4)}, k \in {Kind(Choice(4))}, g \in {Choice(4) - 1} :
                  /\ made' = Append(made, [to |-> c, kind |-> k])
                  /\ Note([op |-> "peer", conn |-> c, kind |-> k, gen |-> g])
          [] OTHER ->
              \E p \in {Choice(Len(made))} : \E c \in {At(p)} :
              \E q \in {IF Choice(3) = 1 THEN <<p, Choice(Len(made))>> ELSE <<p>>}, x \in {Harm(Choice(14))}, n \in {Choice(2)} :
                  UNCHANGED made /\ Note([op |-> "recv", conn |-> c, packets |-> q, harm |-> x, times |-> n])
Spec == Init /\ [][Next]_vars
Emit == Len(ops) = Length => PrintT(<<"BEHAVIOUR", ToJson(ops)>>)
Going == Len(ops) < Length
=============================================================================
