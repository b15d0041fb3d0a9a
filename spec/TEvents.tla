------------------------------ MODULE TEvents ------------------------------
(***************************************************************************)
(* Judges a recorded file of independent events, line by line.  The file   *)
(* is cut into Chunks runs that advance in parallel.                       *)
(***************************************************************************)
EXTENDS Judge, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunks == 64
Size == (Len(Trace) + Chunks - 1) \div Chunks

VARIABLE i
Init == i \in {c * Size + 1 : c \in 0..(Chunks - 1)} \cap 1..Len(Trace)
Next == i % Size # 0 /\ i < Len(Trace) /\ i' = i + 1
Spec == Init /\ [][Next]_i

Judged == LET v == Verdict(Trace[i]) IN v = "ok" \/ PrintT(<<"REJECT", i, v>>)
AllSeen == TLCGet("stats").distinct = Len(Trace)
=============================================================================
