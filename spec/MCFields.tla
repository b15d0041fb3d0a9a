------------------------------ MODULE MCFields -----------------------------
(***************************************************************************)
(* Readers of up to MaxFields fields on streams of every length, ending    *)
(* or failing there.                                                       *)
(***************************************************************************)
EXTENDS Fields, TLC, Json, IOUtils
CONSTANTS MaxFields, Lengths
VARIABLES fs, bs, bad
vars == <<fs, bs, bad>>

All == {[what |-> w, n |-> 0] : w \in DOMAIN Fixed \cup {"rest"}}
       \cup {[what |-> "varu32", n |-> n] : n \in 0..4}
       \cup {[what |-> "varu160", n |-> n] : n \in {0, 1, 8, 15, 16, 17, 19, 20}}
       \cup {[what |-> "bytes", n |-> n] : n \in {0, 1, 3, 21}}
Pattern(n, k) == [i \in 1..n |-> CASE k = 0 -> 255 - 3 * i
                                   [] k = 1 -> IF i % 4 = 1 THEN 128 ELSE 0
                                   [] k = 2 -> 255]
Init == fs = <<>> /\ bs \in {Pattern(n, k) : n \in Lengths, k \in 0..2} /\ bad \in {0, 1}
Next == Len(fs) < MaxFields /\ UNCHANGED <<bs, bad>> /\ \E f \in All : fs' = Append(fs, f)
Spec == Init /\ [][Next]_vars

R == ReadFields(bs, bad, fs)
\* Each byte is in exactly one field, up to where reading stopped.
Accounted ==
    LET raw == [i \in 1..Len(R.v) |-> IF fs[i].what \in {"rest", "bytes"} THEN R.v[i]
                                      ELSE SubSeq(R.v[i], Len(R.v[i]) - SizeOf(fs[i]) + 1, Len(R.v[i]))]
    IN  Flat(raw) = SubSeq(bs, 1, R.p - 1)
\* Nothing but zeros is added.
NothingAdded ==
    \A i \in 1..Len(R.v) : fs[i].what \notin {"rest", "bytes"} =>
        \A j \in 1..(Len(R.v[i]) - SizeOf(fs[i])) : R.v[i][j] = 0
\* Reading stops only for want of bytes.
StopsForWant ==
    ~R.ok => LET f == fs[Len(R.v) + 1] IN IF f.what = "rest" THEN bad # 0 ELSE SizeOf(f) > Len(bs) - R.p + 1
\* More bytes do not change what was read before them.
Stable ==
    \A i \in 1..Len(R.v) : fs[i].what # "rest" =>
        ReadFields(bs \o <<7>>, bad, SubSeq(fs, 1, i)).v = SubSeq(R.v, 1, i) \/ \E j \in 1..i : fs[j].what = "rest"
Possible == \A i \in 1..Len(fs) : FieldPossible(fs[i])
Emit == ("EMIT" \in DOMAIN IOEnv /\ fs # <<>>) =>
        PrintT(<<"BEHAVIOUR", ToJson([k |-> "fields", fs |-> fs, bs |-> bs, bad |-> bad, v |-> R.v, ok |-> R.ok, p |-> R.p])>>)
=============================================================================
