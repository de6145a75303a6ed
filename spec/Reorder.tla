------------------------------- MODULE Reorder -------------------------------
(***************************************************************************)
(* Reordering of node ids and label ids as the library does it: the orders *)
(* are fixed first (any order of equal keys), then every node record is    *)
(* rewritten under the maps, in any order.  The result must be the renamed *)
(* graph of the specification, isomorphic to the original, ordered as      *)
(* promised, and the renaming invertible.                                  *)
(***************************************************************************)
EXTENDS RustGraph

CONSTANTS K, Dir, NLids, ELids, DoN, DoNL, DoEL
VARIABLES g, maps, todo, x
rvars == <<g, maps, todo, x, vars>>

Keys(V) == {k \in V \X V : Dir \/ k[1] <= k[2]}
LidsOf(S) == {None} \cup {Some(i) : i \in S}
Tab(S) == [i \in 1..Cardinality(S) |-> <<"l", i>>]
Perms(S) == {p \in [1..Cardinality(S) -> S] : Distinct(p)}
NoneUnless(b, S) == IF b THEN {Some(p) : p \in S} ELSE {None}
RInit ==
    /\ Init
    /\ \E V \in SUBSET (0..(K - 1)) : \E E \in SUBSET Keys(V) :
         \E nf \in [V -> LidsOf(NLids)], ef \in [E -> LidsOf(ELids)] :
            g = [dir |-> Dir, n |-> nf, e |-> ef, nm |-> Tab(NLids), em |-> Tab(ELids),
                 mx |-> IF V = {} THEN None ELSE Some(MaxOf(V)), im |-> "map"]
    /\ maps \in {[n |-> a, nl |-> b, el |-> c] :
                   a \in NoneUnless(DoN, {p \in Perms(Nodes(g)) : NonDecreasing(p, LAMBDA v : TotDeg(g, v))}),
                   b \in NoneUnless(DoNL, {p \in Perms(UsedN(g)) : NonDecreasing(p, LAMBDA l : NFreq(g, l))}),
                   c \in NoneUnless(DoEL, {p \in Perms(UsedE(g)) : NonDecreasing(p, LAMBDA l : EFreq(g, l))})}
    /\ todo = Nodes(g) /\ x = EmptyFn
N2(v) == IF IsNone(maps.n) THEN v ELSE IdOf(maps.n[1], v)
NL2(o) == IF IsNone(maps.nl) \/ IsNone(o) THEN o ELSE Some(IdOf(maps.nl[1], o[1]))
EL2(o) == IF IsNone(maps.el) \/ IsNone(o) THEN o ELSE Some(IdOf(maps.el[1], o[1]))
\* one node record: label id, out-neighbours with label ids, in-neighbours
Rewrite(v) ==
    LET outs == {N2(t) : t \in Out(g, v)}
        back(y) == CHOOSE t \in Out(g, v) : N2(t) = y
    IN [lid |-> NL2(g.n[v]), out |-> [y \in outs |-> EL2(ELid(g, v, back(y)))],
        inn |-> IF Dir THEN {N2(s) : s \in In(g, v)} ELSE {}]
RNext == \E v \in todo : x' = Put(x, N2(v), Rewrite(v)) /\ todo' = todo \ {v} /\ UNCHANGED <<g, maps, vars>>
RSpec == RInit /\ [][RNext]_rvars

Done == todo = {}
R == RenameG(g, maps.n, maps.nl, maps.el)
RecordsDenoteRenamed ==
    Done => /\ DOMAIN x = Nodes(R)
            /\ \A v \in Nodes(R) : /\ x[v].lid = R.n[v]
                                   /\ DOMAIN x[v].out = Out(R, v)
                                   /\ \A t \in Out(R, v) : x[v].out[t] = ELid(R, v, t)
                                   /\ Dir => x[v].inn = In(R, v)
IsIsomorphism ==
    Done => /\ Isomorphic(g, R)
            /\ NodeCount(R) = NodeCount(g) /\ EdgeCount(R) = EdgeCount(g)
            /\ \A v \in Nodes(g) : Deg(R, N2(v)) = Deg(g, v) /\ NLab(R, N2(v)) = NLab(g, v)
            /\ \A k \in Edges(g) : ELab(R, N2(k[1]), N2(k[2])) = ELab(g, k[1], k[2])
Ordered == Done => /\ DoN => Dense(R) /\ \A i, j \in Nodes(R) : i < j => TotDeg(R, i) <= TotDeg(R, j)
                   /\ DoNL => UsedN(R) = 0..(Len(R.nm) - 1)
                              /\ \A i, j \in UsedN(R) : i < j => NFreq(R, i) <= NFreq(R, j)
                   /\ DoEL => UsedE(R) = 0..(Len(R.em) - 1)
                              /\ \A i, j \in UsedE(R) : i < j => EFreq(R, i) <= EFreq(R, j)
Untouched == Done => /\ ~DoN => Nodes(R) = Nodes(g) /\ Edges(R) = Edges(g)
                     /\ ~DoNL => R.nm = g.nm /\ \A v \in Nodes(g) : R.n[N2(v)] = g.n[v]
                     /\ ~DoEL => R.em = g.em
\* counting all labels at once is counting each
FreqsAgree == Done => /\ \A c \in UsedN(g) : NFreqs(g)[c] = NFreq(g, c)
                      /\ \A c \in UsedE(g) : EFreqs(g)[c] = EFreq(g, c)
\* there and back
Invertible == Done /\ DoN => \A v \in Nodes(g) : maps.n[1][N2(v) + 1] = v
=============================================================================
