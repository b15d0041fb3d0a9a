----------------------------- MODULE GenSpaces -----------------------------
(* Behaviours of Spaces, to be replayed on real connections. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Length, Conns
VARIABLES last, slack, packets, ops
Names == {"initial", "handshake", "app"}
S == INSTANCE Spaces WITH SpaceNames <- Names, Numbers <- Nat, Zero <- 0,
                          Succ <- LAMBDA x : x + 1, Less <- LAMBDA x, y : x < y
vars == <<last, slack, packets, ops>>
Choice(k) == RandomElement(1..(k + 0 * Len(ops)))
Note(x) == ops' = Append(ops, x)
Init == S!InitFor(1..Conns) /\ ops = <<>>
\* 2^k, and numbers next to it
Far == <<100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 8388607, 8388608, 16777215, 16777216, 2147483000>>
After(c, s) == IF last[c][s] = <<>> THEN 1 ELSE last[c][s][1] + 1
Later(c, s, pn) == IF last[c][s] # <<>> /\ last[c][s][1] >= pn THEN last[c][s][1] + 1 ELSE pn
Next ==
    \E c \in {Choice(Conns)}, s \in {<<"initial", "handshake", "app">>[Choice(3)]}, what \in {Choice(10)} :
        CASE what <= 3 -> /\ S!Number(c, s, After(c, s)) /\ Note([op |-> "next", conn |-> c, space |-> s])
          [] what <= 6 /\ s # "app" ->
                \E wire \in {Choice(2) = 1} :
                    /\ S!Build(c, s, After(c, s), Len(ops))
                    /\ Note([op |-> "build", conn |-> c, kind |-> s, wire |-> wire, how |-> "good"])
          [] what = 7 /\ s # "app" ->
                \E how \in {<<"noscid", "badframe", "nokeys">>[Choice(3)]} :
                    /\ S!Fail(c, s)
                    /\ Note([op |-> "build", conn |-> c, kind |-> s, wire |-> TRUE, how |-> how])
          [] what = 8 -> \E pn \in {Later(c, s, Far[Choice(14)])} :
                    /\ S!Jump(c, s, pn) /\ Note([op |-> "jump", conn |-> c, space |-> s, to |-> pn])
          [] OTHER -> \E q \in {<<"ack", "recv", "install", "decode", "again">>[Choice(5)]} :
                    /\ S!Quiet /\ Note([op |-> q, conn |-> c, space |-> s])
Spec == Init /\ [][Next]_vars
Emit == Len(ops) = Length => PrintT(<<"BEHAVIOUR", ToJson(ops)>>)
Going == Len(ops) < Length
=============================================================================
