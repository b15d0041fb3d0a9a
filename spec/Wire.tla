-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* A peer writes a packet payload frame by frame, choosing the form of its *)
(* integers; the last frame may leave out its length, and then nothing     *)
(* follows.  fs: what was written; bs: the bytes; open: no more can follow. *)
(***************************************************************************)
EXTENDS Frames
CONSTANT Forms             \* the least sizes a writer uses for its integers
VARIABLES fs, bs, open

Larger(a, b) == IF a > b THEN a ELSE b
Init == fs = <<>> /\ bs = <<>> /\ open = FALSE

Put(f, n, last) ==
    LET W(u) == EncodeAs(u, Larger(n, VarIntLen(u)))
    IN  EncodeFrameBy(f, last, W)
Write(f, n, last) ==
    /\ ~open
    /\ n \in Forms
    /\ last => f.t = "stream"
    /\ fs' = Append(fs, f)
    /\ bs' = bs \o Put(f, n, last)
    /\ open' = last

------------------------------------------------------------------------------
\* What was written is what is read, whatever the forms.
ReadsBack == DecodeFrames(bs) = Got(fs, Len(bs) + 1)
\* No frame is the beginning of another: a payload that was cut inside its last frame is
\* not a payload.
Cut(k) == SubSeq(bs, 1, k)
NoShorterReading ==
    LET n == Len(fs) IN
    (n > 0 /\ ~open) =>
        \A k \in 1..(Len(bs) - 1) :
            LET x == DecodeFrames(Cut(k)) IN x.ok => Len(x.v) < n
\* The canonical form is the shortest, and means the same.
Canonical ==
    /\ Len(EncodeFrames(fs, FALSE)) <= Len(bs) + (IF open THEN 8 ELSE 0)
    /\ DecodeFrames(EncodeFrames(fs, FALSE)).v = fs
    /\ DecodeFrames(EncodeFrames(fs, TRUE)).v = fs
\* What follows a payload that is not open does not change it.
Extends == ~open => DecodeFrames(bs \o <<1>>) = Got(Append(fs, [t |-> "ping"]), Len(bs) + 2)
\* A payload has no more frames than bytes.
Bounded == Len(fs) <= Len(bs)
=============================================================================
