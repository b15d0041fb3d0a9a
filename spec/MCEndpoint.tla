----------------------------- MODULE MCEndpoint ----------------------------
(***************************************************************************)
(* Two pairs of connections with Endpoint, over a network that keeps every *)
(* packet, coalesces any two of them, alters them and delivers them to any *)
(* connection, any number of times.  Keys are names; the two pairs use     *)
(* different ones.  Numbers are three digits to base 2.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Base, Size, MaxLen, MaxSent, MaxInstalls, MaxReads, MaxMoves, Conns
SpaceNames == {"initial", "app"}
MCTop == [i \in 1..Size |-> IF i = 1 THEN Base ELSE 0]
Altered == [from |-> 0, space |-> "initial", key |-> <<>>, pn |-> <<>>, t |-> <<>>]

VARIABLES conns, net, got, budget
vars == <<conns, net, got, budget>>
PNs == INSTANCE PacketNumbers WITH Top <- MCTop
\* One packet: its key has to be there and its number has to be recovered.
Opens(x, p) == /\ x[p.space].remote = p.key
               /\ PNs!Reconstruct(x[p.space].received, p.t) = p.pn
Reads(x, d) == IF \A i \in 1..Len(d) : d[i] # Altered /\ Opens(x, d[i]) THEN [ok |-> TRUE, v |-> d]
               ELSE [ok |-> FALSE, v |-> <<>>]
E == INSTANCE Endpoint WITH Reading <- Reads, Top <- MCTop

\* 1 and 2 are the ends of one connection, 3 and 4 those of another.
Peer(c) == IF c % 2 = 1 THEN c + 1 ELSE c - 1
Key(c, s, g) == <<c, s, g>>
\* all but the largest one, so that none wraps
Numbers == {[i \in 1..Size |-> x[i]] : x \in [1..Size -> 0..(Base - 1)]} \ {[i \in 1..Size |-> Base - 1]}

Init ==
    /\ conns = [c \in Conns |-> E!FreshConn(<<Key(c, "initial", 0)>>, <<Key(Peer(c), "initial", 0)>>)]
    /\ net = {} /\ got = {}
    /\ budget = [installs |-> MaxInstalls, reads |-> MaxReads, moves |-> MaxMoves]
Spend(f) == budget[f] > 0 /\ budget' = [budget EXCEPT ![f] = @ - 1]

Install(c, s, g) ==
    /\ Spend("installs") /\ UNCHANGED <<net, got>>
    /\ \/ E!Install(c, s, <<Key(c, s, g)>>, <<Key(Peer(c), s, g)>>)
       \/ E!Install(c, s, <<>>, <<>>)
Send(c, s, n) ==
    /\ Cardinality(net) < MaxSent /\ UNCHANGED <<got, budget>>
    /\ conns[c][s].local # <<>>
    /\ \E pn \in E!NextNumbers(conns[c][s]) :
          /\ pn \in Numbers
          /\ E!Send(c, s, pn, n, conns[c][s].local[1])
          /\ net' = net \cup {[from |-> c, space |-> s, key |-> conns[c][s].local, pn |-> pn, t |-> PNs!Truncate(pn, n)]}
\* Losses move the numbers on; acknowledgements and packets received otherwise move the positions.
Move(c, s) ==
    /\ Spend("moves") /\ UNCHANGED <<net, got>>
    /\ \/ \E pn \in Numbers : /\ conns[c][s].last # <<>> => PNs!PnLess(conns[c][s].last[1], pn)
                              /\ E!Skip(c, s, pn)
       \/ \E g \in got : /\ g.at = c /\ g.p.space = s
                         /\ conns[c][s].received # <<>> => PNs!PnLess(conns[c][s].received[1], g.p.pn)
                         /\ E!Received(c, s, <<g.p.pn>>)
       \/ /\ conns[Peer(c)][s].received # <<>> /\ E!Acked(c, s, conns[Peer(c)][s].received)
Datagrams == {<<p>> : p \in net \cup {Altered}} \cup {<<p, q>> : p, q \in net \cup {Altered}}
Receive(c, d) ==
    /\ Spend("reads") /\ UNCHANGED net
    /\ E!Receive(c, d)
    /\ got' = IF E!Result(c, d).ok THEN got \cup {[at |-> c, p |-> d[i], had |-> conns[c][d[i].space].remote] : i \in 1..Len(d)} ELSE got
Next ==
    \/ \E c \in Conns, s \in SpaceNames, g \in 0..1 : Install(c, s, g)
    \/ \E c \in Conns, s \in SpaceNames, n \in 1..MaxLen : Send(c, s, n)
    \/ \E c \in Conns, s \in SpaceNames : Move(c, s)
    \/ \E c \in Conns : \E d \in Datagrams : Receive(c, d)
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
\* Reading, whatever comes of it, leaves all connections as they were (C22).
NoTrace == [][budget'.reads # budget.reads => conns' = conns]_vars
\* An operation is on one connection and one space of it (C06, C22).
Isolated ==
    [][\A c, d \in Conns, s, t \in SpaceNames :
          conns'[c][s] # conns[c][s] /\ conns'[d][t] # conns[d][t] => c = d /\ s = t]_vars
\* What was read was sent by the peer, for that space and with the keys that were there (C09, C19).
Authentic == \A g \in got : g.p \in net /\ g.p.from = Peer(g.at) /\ g.had = g.p.key
\* No nonce twice (C06).
NonceOnce == \A p, q \in net : p.key = q.key /\ p.pn = q.pn => p.space = q.space /\ p.from = q.from
Strict == \A p \in net : \A q \in net : (p.from = q.from /\ p.space = q.space /\ p.pn = q.pn) => p.t = q.t /\ p.key = q.key
\* A packet that is newer than all received ones, and whose key is there, is read alone (C05, C08).
Arrives ==
    \A p \in net :
        LET x == conns[Peer(p.from)][p.space] IN
        x.remote = p.key /\ (x.received = <<>> \/ PNs!PnLess(x.received[1], p.pn))
            => Reads(conns[Peer(p.from)], <<p>>).ok
=============================================================================
