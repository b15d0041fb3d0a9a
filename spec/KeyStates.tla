------------------------------ MODULE KeyStates ----------------------------
(***************************************************************************)
(* The keys of a connection.  Each packet number space has keys to send    *)
(* with (local) and keys to receive with (remote), or None.  Initial keys  *)
(* are there from the start; the others come with the handshake, may be    *)
(* replaced (key update) and discarded.  Keys are names here: a packet     *)
(* that was sealed with a key is opened with that key and with no other.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT None
SpaceNames == {"initial", "handshake", "app"}
Kinds == {"initial", "zerortt", "handshake", "onertt"}
\* The library builds only these
Sendable == {"initial", "handshake"}
SpaceOf(kind) == CASE kind = "initial" -> "initial"
                   [] kind = "handshake" -> "handshake"
                   [] OTHER -> "app"

Fresh(local, remote) ==
    [s \in SpaceNames |-> IF s = "initial" THEN [local |-> local, remote |-> remote]
                          ELSE [local |-> None, remote |-> None]]
Installed(keys, s, local, remote) == [keys EXCEPT ![s] = [local |-> local, remote |-> remote]]

\* The key a packet of that kind is sent with; None: it cannot be sent.
SendKey(keys, kind) == keys[SpaceOf(kind)].local
\* Whether a packet of that kind, sealed with key, is read.
Reads(keys, kind, key) == key # None /\ keys[SpaceOf(kind)].remote = key
=============================================================================
