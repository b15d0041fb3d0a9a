----------------------------- MODULE GenHeader -----------------------------
(* Behaviours of HeaderProtection, to be replayed on a real header. *)
EXTENDS HeaderProtection, TLC, Json
CONSTANT Length
VARIABLES x, ops
vars == <<x, ops>>
Choice(k) == RandomElement(1..(k + 0 * Len(ops)))
Note(o) == ops' = Append(ops, o)
Octet == Choice(256) - 1
\* one of few masks, so that the same one comes again
AMask == LET k == Choice(3) IN <<(37 * k) % 256, (91 * k) % 256, (150 * k) % 256, 255 - k, k>>
Init == x = Received(TRUE, 0, <<>>) /\ ops = <<>>
Start == \E long \in {Choice(2) = 1}, hidden \in {Choice(2) = 1}, b \in {Octet} :
    \* a short header is only ever read; a long one of type 3 (retry) has no protection
    LET long2 == long \/ ~hidden
        b2 == IF long2 THEN 192 + (b % 48) ELSE 64 + (b % 64)
    IN  /\ x' = [Received(long2, b2, <<>>) EXCEPT !.hidden = hidden]
        /\ Note([op |-> "start", long |-> long2, hidden |-> hidden, byte |-> b2])
Next ==
    IF ops = <<>> THEN Start
    ELSE \E what \in {Choice(10)}, mask \in {AMask} :
        CASE what <= 3 -> x' = Add(x, mask) /\ Note([op |-> "add", mask |-> mask])
          [] what <= 6 -> x' = Remove(x, mask) /\ Note([op |-> "remove", mask |-> mask])
          [] what = 7 -> UNCHANGED x /\ \E n \in {Choice(5)} : \E pn \in {[i \in 1..n |-> RandomElement(0..255)]} : Note([op |-> "mask", pn |-> pn, mask |-> mask])
          [] OTHER -> UNCHANGED x /\ Note([op |-> "read"])
Spec == Init /\ [][Next]_vars
Emit == Len(ops) = Length => PrintT(<<"BEHAVIOUR", ToJson(ops)>>)
Going == Len(ops) < Length
=============================================================================
