------------------------------ MODULE MCLabels -----------------------------
(***************************************************************************)
(* Labels of key derivation: two derivations that differ in label, context *)
(* or length never feed the same bytes to HMAC.                            *)
(***************************************************************************)
EXTENDS Labels, TLC, Json, IOUtils
CONSTANTS MaxLabel, MaxContext, Sizes
VARIABLES label, context, n
vars == <<label, context, n>>
\* "a", a byte that could be a length, and the zero that an empty context is written as
Letters == {97, 1, 0}
Init == label = <<97>> /\ context = <<>> /\ n \in Sizes
Next == \/ Len(label) < MaxLabel /\ \E x \in Letters : label' = Append(label, x) /\ UNCHANGED <<context, n>>
        \/ Len(context) < MaxContext /\ \E x \in Letters : context' = Append(context, x) /\ UNCHANGED <<label, n>>
Spec == Init /\ [][Next]_vars
Info0 == LabelInfo(label, context, n)
Fits == LabelFits(label, context, n)
\* The bytes tell label, context and length, so that they differ whenever one of these does.
Unambiguous == LabelOf(Info0) = [n |-> n, label |-> label, context |-> context]
WholeLength == Len(Info0) = 2 + 1 + Len(Tls13) + Len(label) + 1 + Len(context)
\* Without context it is what KeySchedule uses.
Agrees == context = <<>> => Info0 = Info(label, n)
Emit == "EMIT" \in DOMAIN IOEnv => PrintT(<<"BEHAVIOUR", ToJson([k |-> "label", label |-> label, context |-> context, n |-> n, info |-> Info0])>>)
=============================================================================
