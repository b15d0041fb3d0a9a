------------------------------ MODULE GenKeys ------------------------------
(* Behaviours of KeyStates, to be replayed on a real connection: the keys come and go in any
   order, and packets are sealed with the right key, with that of another space or of the
   other direction, or with one never installed. *)
EXTENDS KeyStates, TLC, Json
CONSTANTS Length, Secrets     \* secrets are numbered from 3
VARIABLES keys, ops
vars == <<keys, ops>>
Choice(k) == RandomElement(1..(k + 0 * Len(ops)))
Note(x) == ops' = Append(ops, x)
Init == keys = Fresh(1, 2) /\ ops = <<>>
Some == IF Choice(4) = 1 THEN None ELSE 2 + Choice(Secrets)
\* often the one that would be right, if there is one
KeyFor(s) == IF Choice(2) = 1 /\ keys[s].remote # None THEN keys[s].remote ELSE Choice(2 + Secrets)
SpaceNo(k) == <<"initial", "handshake", "app">>[k]
KindNo(k) == <<"initial", "zerortt", "handshake", "onertt">>[k]
Next ==
    \E what \in {Choice(12)} :
        CASE what <= 3 ->
              \E s \in {SpaceNo(Choice(3))}, a \in {Some}, b \in {Some} :
                  /\ keys' = Installed(keys, s, a, b)
                  /\ Note([op |-> "install", space |-> s, local |-> a, remote |-> b])
          [] what <= 5 ->
              \E k \in {<<"initial", "handshake">>[Choice(2)]} : UNCHANGED keys /\ Note([op |-> "send", kind |-> k])
          [] what <= 9 ->
              \E k \in {KindNo(Choice(4))} : \E key \in {KeyFor(SpaceOf(k))} :
                  UNCHANGED keys /\ Note([op |-> "recv", kind |-> k, key |-> key])
          [] OTHER ->
              \E s \in {SpaceNo(Choice(3))}, o \in {<<"seal", "open", "lmask", "rmask", "size">>[Choice(5)]} :
              \E key \in {KeyFor(s)} :
                  UNCHANGED keys /\ Note([op |-> o, space |-> s, key |-> key])
Spec == Init /\ [][Next]_vars
Emit == Len(ops) = Length => PrintT(<<"BEHAVIOUR", ToJson(ops)>>)
Going == Len(ops) < Length
=============================================================================
