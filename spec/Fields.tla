------------------------------- MODULE Fields ------------------------------
(***************************************************************************)
(* Fields of fixed size, connection ids, and runs of bytes, read one after *)
(* the other from a stream of bytes.  A stream may end in an error instead *)
(* of the end: bad is the position of that error, or 0.                    *)
(*                                                                         *)
(* A field is [what, n]; n is the length of those that have one.           *)
(***************************************************************************)
EXTENDS Bytes, SequencesExt

Fixed == [u8 |-> 1, u16 |-> 2, u32 |-> 4, u64 |-> 8, u128 |-> 16, u160 |-> 20, dcid |-> 8]
Variable == {"varu32", "varu160", "bytes"}
\* Bytes of the value that the library makes of it
Width(f) == CASE f.what \in {"u160", "dcid", "varu160"} -> 20
              [] f.what = "varu32" -> 4
              [] f.what \in DOMAIN Fixed -> Fixed[f.what]
              [] OTHER -> f.n
SizeOf(f) == IF f.what \in DOMAIN Fixed THEN Fixed[f.what] ELSE f.n
\* Lengths for which the value has room
FieldPossible(f) == f.what \in {"varu32", "varu160"} => f.n <= Width(f)

\* The field at position p of a stream.
FieldAt(bs, bad, p, f) ==
    IF f.what = "rest"
    THEN IF bad # 0 THEN Fail ELSE Got(Rest(bs, p), Len(bs) + 1)
    ELSE LET x == Take(bs, p, SizeOf(f))
         IN  IF x.ok THEN Got(IF f.what = "bytes" THEN x.v ELSE PadLeft(x.v, Width(f)), x.p) ELSE Fail

\* bs are the bytes before the end, or before the error.  The values up to the first failure.
ReadFields(bs, bad, fs) ==
    LET Step(st, f) ==
            IF ~st.ok THEN st
            ELSE LET x == FieldAt(bs, bad, st.p, f)
                 IN  IF x.ok THEN [ok |-> TRUE, p |-> x.p, v |-> Append(st.v, x.v)]
                     ELSE [st EXCEPT !.ok = FALSE]
    IN  FoldLeft(Step, [ok |-> TRUE, p |-> 1, v |-> <<>>], fs)

\* An id of 20 bytes, written in n bytes that hold it.
IdFits(id, n) == \A i \in 1..(20 - n) : id[i] = 0
IdBytes(id, n) == SubSeq(id, 21 - n, 20)
=============================================================================
