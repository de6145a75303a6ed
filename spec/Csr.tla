--------------------------------- MODULE Csr ---------------------------------
(***************************************************************************)
(* The compact (offset / target / label) encoding of static graphs:        *)
(* decoding a set of vectors into the graph value they describe, and the   *)
(* encoding that the conversion of a mutable graph must produce.           *)
(***************************************************************************)
EXTENDS Graphs

\* off has one entry per node plus one; sentinel is the label id meaning "none"
NumN(off) == IF Len(off) = 0 THEN 0 ELSE Len(off) - 1
Slice(off, edg, i) == {edg[j] : j \in (off[i + 1] + 1)..off[i + 2]}
LidOpt(l, sentinel) == IF l = sentinel THEN None ELSE Some(l)
\* position (0-based) of edge (s,t) in edg, as an option
Position(off, edg, s, t) ==
    IF s >= NumN(off) \/ t >= NumN(off) THEN None
    ELSE LET P == {j \in (off[s + 1] + 1)..off[s + 2] : edg[j] = t}
         IN IF P = {} THEN None ELSE Some((CHOOSE j \in P : TRUE) - 1)

\* the row position j lies in: the first offset that reaches j ends it
RECURSIVE RowEnd(_, _, _, _)
RowEnd(off, j, lo, hi) == IF lo > hi THEN lo
                          ELSE LET m == (lo + hi) \div 2
                               IN IF off[m] >= j THEN RowEnd(off, j, lo, m - 1) ELSE RowEnd(off, j, m + 1, hi)
\* the pair at every position
PairsAt(off, edg) == [j \in DOMAIN edg |-> <<RowEnd(off, j, 1, Len(off)) - 2, edg[j]>>]

WellFormedCsr(dir, off, edg) ==
    /\ Len(off) > 0 => off[1] = 0 /\ off[Len(off)] = Len(edg)
    /\ Len(off) = 0 => Len(edg) = 0
    /\ \A i \in 1..(Len(off) - 1) : off[i] <= off[i + 1]
    /\ \A i \in 0..(NumN(off) - 1) : \A j \in (off[i + 1] + 1)..(off[i + 2] - 1) : edg[j] < edg[j + 1]
    /\ \A j \in DOMAIN edg : edg[j] < NumN(off)
    /\ ~dir => LET P == Range(PairsAt(off, edg)) IN Cardinality(P) = Len(edg) /\ \A k \in P : <<k[2], k[1]>> \in P

\* el, nl: options of label-id sequences
Decode(dir, off, edg, el, nl, sentinel, nm, em) ==
    LET N == 0..(NumN(off) - 1)
        at == Index(PairsAt(off, edg))
        K == {k \in DOMAIN at : dir \/ k[1] <= k[2]}
    IN [dir |-> dir,
        n |-> [i \in N |-> IF IsNone(nl) THEN None ELSE LidOpt(nl[1][i + 1], sentinel)],
        e |-> [k \in K |-> IF IsNone(el) THEN None
                           ELSE LidOpt(el[1][at[k]], sentinel)],
        nm |-> nm, em |-> em,
        mx |-> IF N = {} THEN None ELSE Some(NumN(off) - 1),
        im |-> "static"]

\* the vectors of a dense graph
SortedSeq(S) == LET RECURSIVE Q(_)
                    Q(R) == IF R = {} THEN <<>>
                            ELSE LET m == CHOOSE x \in R : \A y \in R : x <= y IN <<m>> \o Q(R \ {m})
                IN Q(S)
EncOff(g, Adj(_)) == LET n == NodeCount(g)
                         RECURSIVE O(_, _)
                         O(i, acc) == IF i = n THEN <<acc>> ELSE <<acc>> \o O(i + 1, acc + Cardinality(Adj(i)))
                     IN O(0, 0)
EncEdg(g, Adj(_)) == LET n == NodeCount(g)
                         RECURSIVE E(_)
                         E(i) == IF i = n THEN <<>> ELSE SortedSeq(Adj(i)) \o E(i + 1)
                     IN E(0)
EncLab(g, sentinel) == LET n == NodeCount(g)
                           lab(i, t) == LET o == ELid(g, i, t) IN IF IsNone(o) THEN sentinel ELSE o[1]
                           row(i) == LET s == SortedSeq(Out(g, i)) IN [j \in DOMAIN s |-> lab(i, s[j])]
                           RECURSIVE E(_)
                           E(i) == IF i = n THEN <<>> ELSE row(i) \o E(i + 1)
                       IN E(0)
EncNl(g, sentinel) == [i \in 1..NodeCount(g) |-> IF IsNone(g.n[i - 1]) THEN sentinel ELSE g.n[i - 1][1]]

(* The same, as a predicate that can be decided on large vectors: the rows *)
(* increase strictly, and together they list exactly the pairs P.  There   *)
(* is one such pair of vectors (CsrImpl checks that it is the one above).  *)
IsEnc(off, edg, n, P) ==
    /\ Len(off) = n + 1 /\ off[1] = 0 /\ off[n + 1] = Len(edg)
    /\ \A i \in 1..n : off[i] <= off[i + 1]
    /\ \A i \in 0..(n - 1) : \A j \in (off[i + 1] + 1)..(off[i + 2] - 1) : edg[j] < edg[j + 1]
    /\ Len(edg) = Cardinality(P)
    /\ \A i \in 0..(n - 1) : \A j \in (off[i + 1] + 1)..off[i + 2] : <<i, edg[j]>> \in P
IsEncLab(g, off, edg, el, sentinel) ==
    /\ Len(el) = Len(edg)
    /\ \A i \in 0..(NumN(off) - 1) : \A j \in (off[i + 1] + 1)..off[i + 2] :
         LET o == ELid(g, i, edg[j]) IN el[j] = (IF IsNone(o) THEN sentinel ELSE o[1])
=============================================================================
