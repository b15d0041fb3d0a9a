------------------------------- MODULE Labels ------------------------------
(***************************************************************************)
(* Key derivation with labels (RFC 5869; RFC 8446, section 7.1).  HMAC is  *)
(* ideal: o.hmac is its graph on the points that matter, [key, data, mac]. *)
(***************************************************************************)
EXTENDS KeySchedule, SequencesExt

HashLen == 32
Hmac(o, key, data) ==
    LET P(e) == e.key = key /\ e.data = data IN First(o.hmac, P)

\* salt is <<>> (none: as many zeros as the hash is long) or <<bytes>>
HkdfExtract(o, salt, ikm) ==
    LET x == Hmac(o, IF salt = <<>> THEN Zeros(HashLen) ELSE salt[1], ikm)
    IN  IF x.ok THEN Got(x.v.mac, 0) ELSE Fail

Blocks(n) == (n + HashLen - 1) \div HashLen
\* T(1) | T(2) | ..., T(i) = HMAC(prk, T(i-1) | info | i), cut to n bytes.
HkdfExpand(o, prk, info, n) ==
    LET Step(st, i) ==
            IF ~st.ok THEN st
            ELSE LET x == Hmac(o, prk, st.t \o info \o <<i>>)
                 IN  IF x.ok THEN [ok |-> TRUE, t |-> x.v.mac, all |-> st.all \o x.v.mac]
                     ELSE [ok |-> FALSE, t |-> <<>>, all |-> <<>>]
        r == FoldLeft(Step, [ok |-> TRUE, t |-> <<>>, all |-> <<>>], [i \in 1..Blocks(n) |-> i])
    IN  IF r.ok THEN Got(SubSeq(r.all, 1, n), 0) ELSE Fail

\* struct HkdfLabel: length, "tls13 " + label, context
LabelInfo(label, context, n) ==
    <<n \div 256, n % 256, Len(Tls13) + Len(label)>> \o Tls13 \o label \o <<Len(context)>> \o context
LabelFits(label, context, n) ==
    /\ n <= 255 * HashLen
    /\ Len(Tls13) + Len(label) <= 255
    /\ Len(context) <= 255
\* A secret is at least as long as the hash.
HkdfExpandLabel(o, secret, label, context, n) == HkdfExpand(o, secret, LabelInfo(label, context, n), n)
Derivable(secret, label, context, n) == LabelFits(label, context, n) /\ Len(secret) >= HashLen

\* What a label means, given its bytes
LabelOf(info) ==
    LET k == info[3] - Len(Tls13) IN
    [n |-> info[1] * 256 + info[2], label |-> SubSeq(info, 10, 9 + k),
     context |-> SubSeq(info, 11 + k, 10 + k + info[10 + k])]
=============================================================================
