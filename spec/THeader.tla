------------------------------ MODULE THeader ------------------------------
(***************************************************************************)
(* Recorded histories of one real header against HeaderProtection.  Steps: *)
(*   start   long, bytes, hidden: a header from the network (hidden) or of *)
(*           a packet that is built                                        *)
(*   add, remove   mask, and bytes, the header afterwards                  *)
(*   read    what ("pnlen", "spin", "reserved", "phase", "type"), out, val *)
(*   mask    pn, mask, out, after: masking of packet number bytes          *)
(***************************************************************************)
EXTENDS HeaderProtection, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Show == IOEnv.SHOW = "1"
VARIABLES h, l, x
vars == <<h, l, x>>
Steps == Trace[h].steps
E == Steps[l]
More == l <= Len(Steps)
Advance == l' = l + 1 /\ UNCHANGED h
NoHeader == Received(TRUE, 0, <<>>)
Init == h \in 1..Len(Trace) /\ l = 1 /\ x = NoHeader

Is(y, bytes) == bytes = <<y.byte>> \o y.rest
Start == /\ More /\ E.op = "start"
         /\ x' = IF E.hidden THEN Received(E.long, E.bytes[1], Tail(E.bytes)) ELSE Made(E.long, E.bytes[1], Tail(E.bytes))
         /\ Advance
AddIt == /\ More /\ E.op = "add" /\ x' = Add(x, E.mask) /\ Is(x', E.bytes) /\ Advance
RemoveIt == /\ More /\ E.op = "remove" /\ x' = Remove(x, E.mask) /\ Is(x', E.bytes) /\ Advance

Number(what) == CASE what = "pnlen" -> PnLength(x)
                  [] what = "reserved" -> Reserved(x)
                  [] what = "phase" -> KeyPhase(x)
                  [] what = "spin" -> Spin(x)
Read ==
    /\ More /\ E.op = "read"
    /\ CASE E.what = "type" -> E.out = "ok" /\ E.name = Type(x)
         \* the spin bit is not protected: it may be refused or not while the others are
         [] E.what = "spin" /\ x.hidden -> E.out = "err" \/ (E.out = "ok" /\ E.val = Spin(x))
         [] x.hidden -> E.out = "err"
         [] OTHER -> E.out = "ok" /\ E.val = Number(E.what)
    /\ UNCHANGED x /\ Advance
Pn ==
    /\ More /\ E.op = "mask"
    /\ IF Len(E.pn) <= 4 THEN E.out = "ok" /\ E.after = MaskedPn(E.pn, E.mask)
       ELSE E.out = "err"
    /\ UNCHANGED x /\ Advance
Next == Start \/ AddIt \/ RemoveIt \/ Read \/ Pn
Spec == Init /\ [][Next]_vars
Report ==
    /\ ~More => PrintT(<<"ACCEPT", h>>)
    /\ Show /\ More => PrintT(<<"AT", h, l>>)
=============================================================================
