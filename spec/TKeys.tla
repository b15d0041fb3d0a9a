------------------------------- MODULE TKeys -------------------------------
(***************************************************************************)
(* Recorded histories of one real connection's keys against KeyStates.     *)
(* The names of keys are numbers, 0 for none; 1 and 2 are the initial keys *)
(* to send and to receive with.  opens lists the names of all keys that    *)
(* open (or give) what the library produced.  Steps:                       *)
(*   install  space, local, remote                                         *)
(*   send     kind, out, opens          building and serializing a packet  *)
(*   recv     kind, key, out            decoding a packet sealed with key  *)
(*   seal     space, out, opens         encrypt_local_payload              *)
(*   open     space, key, out           decrypt_remote_payload             *)
(*   mask     space, dir, out, opens    header protection mask             *)
(*   size     space, out                length of a protected payload      *)
(***************************************************************************)
EXTENDS KeyStates, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Show == IOEnv.SHOW = "1"
VARIABLES h, l, keys
vars == <<h, l, keys>>

Steps == Trace[h].steps
E == Steps[l]
More == l <= Len(Steps)
Advance == l' = l + 1 /\ UNCHANGED h
Init == h \in 1..Len(Trace) /\ l = 1 /\ keys = Fresh(1, 2)

Install == /\ More /\ E.op = "install"
           /\ keys' = Installed(keys, E.space, E.local, E.remote) /\ Advance

Names(x) == {x[i] : i \in 1..Len(x)}
\* Exactly what the key gives, and an error without one.
Gives(key, out, opens) ==
    IF key = None THEN out = "err" ELSE out = "ok" /\ Names(opens) = {key}
Send == More /\ E.op = "send" /\ Gives(SendKey(keys, E.kind), E.out, E.opens)
Recv == More /\ E.op = "recv" /\ E.out = IF Reads(keys, E.kind, E.key) THEN "ok" ELSE "err"
Seal == More /\ E.op = "seal" /\ Gives(keys[E.space].local, E.out, E.opens)
Open == More /\ E.op = "open" /\ E.out = IF E.key # None /\ keys[E.space].remote = E.key THEN "ok" ELSE "err"
Mask == More /\ E.op = "mask" /\ Gives(IF E.dir = "local" THEN keys[E.space].local ELSE keys[E.space].remote, E.out, E.opens)
Size == More /\ E.op = "size" /\ IF keys[E.space].local = None THEN E.out # "panic" ELSE E.out = "ok"

Next == Install \/ ((Send \/ Recv \/ Seal \/ Open \/ Mask \/ Size) /\ UNCHANGED keys /\ Advance)
Spec == Init /\ [][Next]_vars
Report ==
    /\ ~More => PrintT(<<"ACCEPT", h>>)
    /\ Show /\ More => PrintT(<<"AT", h, l>>)
=============================================================================
