------------------------------- MODULE Graphs -------------------------------
(***************************************************************************)
(* Graph values and the pure operators on them.                            *)
(*                                                                         *)
(* A graph value is a record                                               *)
(*   dir : BOOLEAN          directed?                                      *)
(*   n   : id -> LidOpt     nodes with their label id                      *)
(*   e   : <<s,t>> -> LidOpt edges with their label id; an undirected edge *)
(*                          is stored once, under the key with s <= t      *)
(*   nm, em : Seq(label)    node / edge label tables (index = label id)    *)
(*   mx  : Opt(id)          largest id ever seen                           *)
(*   im  : "map" | "static" | "mmap"                                       *)
(* An option is <<>> (none) or <<x>>.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

None == <<>>
Some(x) == <<x>>
IsNone(o) == Len(o) = 0
Get(o) == o[1]

Range(s) == {s[i] : i \in DOMAIN s}
Distinct(s) == Cardinality(Range(s)) = Len(s)
\* the union; TLC sorts A to count it, and finds in a sorted set at once
Cup(A, B) == IF Cardinality(A) = 0 THEN B ELSE A \cup B
Less(A, B) == IF Cardinality(B) = 0 THEN A ELSE A \ B
Max2(a, b) == IF a >= b THEN a ELSE b
FSE == INSTANCE FiniteSetsExt
MaxOf(S) == FSE!FoldSet(Max2, CHOOSE x \in S : TRUE, S)
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
\* the position of every item of s (of the first, should it occur more than once)
FN == INSTANCE Functions
Index(s) == IF s # <<>> /\ Distinct(s) THEN FN!AntiFunction(s)
            ELSE [x \in Range(s) |-> CHOOSE j \in DOMAIN s : s[j] = x]
EmptyFn == [x \in {} |-> 0]
Restrict(f, S) == [x \in S |-> f[x]]
\* number of positions of s holding x
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SumF(f) == LET RECURSIVE S(_)
               S(D) == IF D = {} THEN 0 ELSE LET d == CHOOSE d \in D : TRUE IN f[d] + S(D \ {d})
           IN S(DOMAIN f)
SQ == INSTANCE SequencesExt
FoldL(F(_, _), acc, s) == SQ!FoldLeft(F, acc, s)
\* pairs of numbers in order (TLC lists a set in order by itself)
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
SortedPairs(S) == LET q == SQ!SetToSeq(S)
                  IN IF \A i \in 1..(Len(q) - 1) : Before(q[i], q[i + 1]) THEN q ELSE SQ!SetToSortSeq(S, Before)
\* the first position of Q, within lo..hi, of a pair that starts at i or later (later than i)
RECURSIVE AtLeast(_, _, _, _)
AtLeast(Q, i, lo, hi) == IF lo > hi THEN lo
                         ELSE LET m == (lo + hi) \div 2
                              IN IF Q[m][1] >= i THEN AtLeast(Q, i, lo, m - 1) ELSE AtLeast(Q, i, m + 1, hi)
RECURSIVE Beyond(_, _, _, _)
Beyond(Q, i, lo, hi) == IF lo > hi THEN lo
                        ELSE LET m == (lo + hi) \div 2
                             IN IF Q[m][1] > i THEN Beyond(Q, i, lo, m - 1) ELSE Beyond(Q, i, m + 1, hi)
\* what every x of V is paired with in P
Paired(V, P) == LET Q == SortedPairs(P)
              IN [x \in V |-> {Q[j][2] : j \in AtLeast(Q, x, 1, Len(Q))..(Beyond(Q, x, 1, Len(Q)) - 1)}]
PairedSizes(V, P) == LET Q == SortedPairs(P)
                  IN [x \in V |-> Beyond(Q, x, 1, Len(Q)) - AtLeast(Q, x, 1, Len(Q))]

--------------------------------------------------------------------------
(* Label tables: sequences without repetition; ids are 0-based.            *)
IndexIn(m, x) == CHOOSE i \in DOMAIN m : m[i] = x
HasItem(m, x) == \E i \in DOMAIN m : m[i] = x
Intern(m, x) == IF HasItem(m, x) THEN m ELSE Append(m, x)
IdOf(m, x) == IndexIn(m, x) - 1
InternOpt(m, o) == IF IsNone(o) THEN m ELSE Intern(m, o[1])
IdOfOpt(m, o) == IF IsNone(o) THEN None ELSE Some(IdOf(m, o[1]))
InternAll(m, s) == FoldL(Intern, m, s)
LabelAt(m, o) == IF IsNone(o) THEN None ELSE IF o[1] < Len(m) THEN Some(m[o[1] + 1]) ELSE None

--------------------------------------------------------------------------
(* Observers.                                                              *)
Key(dir, s, t) == IF dir \/ s <= t THEN <<s, t>> ELSE <<t, s>>
Nodes(g) == DOMAIN g.n
Edges(g) == DOMAIN g.e
HasN(g, i) == i \in DOMAIN g.n
HasE(g, s, t) == Key(g.dir, s, t) \in DOMAIN g.e
NLid(g, i) == IF HasN(g, i) THEN g.n[i] ELSE None
ELid(g, s, t) == IF HasE(g, s, t) THEN g.e[Key(g.dir, s, t)] ELSE None
NLab(g, i) == LabelAt(g.nm, NLid(g, i))
ELab(g, s, t) == LabelAt(g.em, ELid(g, s, t))
\* an edge that starts here leads away; an undirected one that ends here, too
Out(g, i) == {IF k[1] = i THEN k[2] ELSE k[1] : k \in {k \in Edges(g) : k[1] = i \/ (~g.dir /\ k[2] = i)}}
In(g, i) == IF g.dir THEN {k[1] : k \in {k \in Edges(g) : k[2] = i}} ELSE Out(g, i)
\* all pairs <<node, neighbour>>
OutPairs(g) == Cup(Edges(g), IF g.dir THEN {} ELSE {<<k[2], k[1]>> : k \in Edges(g)})
InPairs(g) == {<<k[2], k[1]>> : k \in OutPairs(g)}
Deg(g, i) == Cardinality(Out(g, i))
\* degree used for reordering: out-degree plus in-degree (undirected: the degree)
TotDeg(g, i) == Deg(g, i) + (IF g.dir THEN Cardinality(In(g, i)) ELSE 0)
NodeCount(g) == Cardinality(Nodes(g))
EdgeCount(g) == Cardinality(Edges(g))

\* the labelled graph a user sees: what equality, clones, unions, files ... are about
Labelled(g) == [dir |-> g.dir,
                n |-> [i \in Nodes(g) |-> NLab(g, i)],
                e |-> [k \in Edges(g) |-> LabelAt(g.em, g.e[k])]]
\* typed equality does not compare directions (they are part of the type)
Same(a, b) == Labelled(a) = Labelled(b)

WellFormed(g) ==
    /\ \A k \in Edges(g) : HasN(g, k[1]) /\ HasN(g, k[2])
    /\ ~g.dir => \A k \in Edges(g) : k[1] <= k[2]
    /\ Distinct(g.nm) /\ Distinct(g.em)
    /\ \A i \in Nodes(g) : g.mx # None /\ i <= g.mx[1]

--------------------------------------------------------------------------
(* Constructors and mutators.                                              *)
EmptyG(dir, nm, em) == [dir |-> dir, n |-> EmptyFn, e |-> EmptyFn, nm |-> nm, em |-> em,
                        mx |-> None, im |-> "map"]

Put(f, k, v) == (k :> v) @@ f
Drop(f, S) == [x \in (DOMAIN f) \ S |-> f[x]]

AddNodeG(g, id, lab) ==
    LET m == InternOpt(g.nm, lab)
    IN [g EXCEPT !.nm = m,
                 !.n = Put(@, id, IdOfOpt(m, lab)),
                 !.mx = IF HasN(g, id) \/ (@ # None /\ id <= @[1]) THEN @ ELSE Some(id)]
\* an endpoint that is missing appears without a label; one that exists keeps its label
Ensure(g, id) == IF HasN(g, id) THEN g ELSE AddNodeG(g, id, None)
AddEdgeG(g, s, t, lab) ==
    LET h == Ensure(Ensure(g, s), t)
        m == InternOpt(g.em, lab)
    IN [h EXCEPT !.em = m, !.e = Put(@, Key(g.dir, s, t), IdOfOpt(m, lab))]
Incident(g, id) == {k \in Edges(g) : k[1] = id \/ k[2] = id}
RemoveNodeG(g, id) == [g EXCEPT !.n = Drop(@, {id}), !.e = Drop(@, Incident(g, id))]
RemoveEdgeG(g, s, t) == [g EXCEPT !.e = Drop(@, {Key(g.dir, s, t)})]
UpdateNodeG(g, id, lab) == IF HasN(g, id) THEN AddNodeG(g, id, lab) ELSE g
UpdateEdgeG(g, s, t, lab) == IF HasE(g, s, t) THEN AddEdgeG(g, s, t, lab) ELSE g
SetNLidG(g, id, lid) == IF HasN(g, id) THEN [g EXCEPT !.n[id] = lid] ELSE g
SetELidG(g, s, t, lid) == IF HasE(g, s, t) THEN [g EXCEPT !.e[Key(g.dir, s, t)] = lid] ELSE g

FromEdgesG(dir, es) == FoldL(LAMBDA g, p : AddEdgeG(g, p[1], p[2], None),
                             EmptyG(dir, <<>>, <<>>), es)

--------------------------------------------------------------------------
(* Static graphs.  Nodes are 0..n-1; the sentinel label id means "none".   *)
\* conversion: defined for dense ids
Dense(g) == Nodes(g) = 0..(NodeCount(g) - 1)
StaticG(g) == [g EXCEPT !.im = "static",
                        !.mx = IF NodeCount(g) = 0 THEN None ELSE Some(NodeCount(g) - 1)]
StripNodesG(g) == [g EXCEPT !.n = [i \in Nodes(g) |-> None], !.nm = <<>>]
StripEdgesG(g) == [g EXCEPT !.e = [k \in Edges(g) |-> None], !.em = <<>>]

(* Binary operations, on labelled graphs: IsUnion(a, b, r) etc. say that   *)
(* r is an admissible result (label tables of r may be in any order).      *)
UnionNLab(a, b, i) == IF HasN(b, i) THEN NLab(b, i) ELSE NLab(a, i)
\* mixed directions: several edges may fall on one key of the result
UnionSrc(a, g, k) == {x \in {k, <<k[2], k[1]>>} : x \in Edges(g) /\ Key(a.dir, x[1], x[2]) = k}
UnionELabs(a, b, k) == LET S == UnionSrc(a, b, k)
                       IN IF S # {} THEN {LabelAt(b.em, b.e[x]) : x \in S}
                          ELSE {LabelAt(a.em, a.e[x]) : x \in UnionSrc(a, a, k)}
UnionL(a, b) ==
    LET V == Cup(Nodes(a), Nodes(b))
        K == {Key(a.dir, k[1], k[2]) : k \in Edges(a) \cup Edges(b)}
    IN [dir |-> a.dir, nodes |-> V, keys |-> K,
        nlab |-> [i \in V |-> UnionNLab(a, b, i)],
        elabs |-> [k \in K |-> UnionELabs(a, b, k)]]
\* the same, decided on the result's own nodes and edges
IsUnion(a, b, r) ==
    /\ r.dir = a.dir
    /\ \A i \in Nodes(r) : HasN(a, i) \/ HasN(b, i)
    /\ \A i \in Nodes(a) : HasN(r, i)
    /\ \A i \in Nodes(b) : HasN(r, i)
    /\ \A k \in Edges(r) : UnionSrc(a, a, k) # {} \/ UnionSrc(a, b, k) # {}
    /\ \A k \in Edges(a) : Key(a.dir, k[1], k[2]) \in Edges(r)
    /\ \A k \in Edges(b) : Key(a.dir, k[1], k[2]) \in Edges(r)
    /\ \A i \in Nodes(r) : NLab(r, i) = UnionNLab(a, b, i)
    /\ \A k \in Edges(r) : LabelAt(r.em, r.e[k]) \in UnionELabs(a, b, k)
IsMinus(a, b, r) ==
    LET keep == Nodes(a) \ Nodes(b)
        ke == {k \in Edges(a) : k[1] \in keep /\ k[2] \in keep}
    IN /\ r.dir = a.dir
       /\ Nodes(r) = keep
       /\ Edges(r) = ke
       /\ \A i \in keep : NLab(r, i) = NLab(a, i)
       /\ \A k \in ke : LabelAt(r.em, r.e[k]) = LabelAt(a.em, a.e[k])

\* the multiset of labels carried, as a set of <<label, count>>
NLabCount(g) == {<<m, Cardinality({i \in Nodes(g) : NLab(g, i) = <<m>>})>> :
                   m \in {NLab(g, i)[1] : i \in {i \in Nodes(g) : NLab(g, i) # None}}}
ELabCount(g) == {<<m, Cardinality({k \in Edges(g) : LabelAt(g.em, g.e[k]) = <<m>>})>> :
                   m \in {LabelAt(g.em, g.e[k])[1] : k \in {k \in Edges(g) : LabelAt(g.em, g.e[k]) # None}}}
NLidCount(g) == {<<m, Cardinality({i \in Nodes(g) : g.n[i] = <<m>>})>> :
                   m \in {g.n[i][1] : i \in {i \in Nodes(g) : g.n[i] # None}}}
ELidCount(g) == {<<m, Cardinality({k \in Edges(g) : g.e[k] = <<m>>})>> :
                   m \in {g.e[k][1] : k \in {k \in Edges(g) : g.e[k] # None}}}

--------------------------------------------------------------------------
(* Reachability and components (edge direction ignored).                   *)
\* everything in P that some x of F is paired with; nbr = Paired(V, P).  (TLC: a large
\* UNION takes long)
Around(F, nbr, P) == IF FSE!FoldSet(LAMBDA x, a : a + Cardinality(nbr[x]), 0, F) < 300
                     THEN UNION {nbr[x] : x \in F}
                     ELSE {k[2] : k \in {k \in P : k[1] \in F}}
RECURSIVE Grow(_, _, _, _)
Grow(S, front, nbr, P) == LET T == Less(Around(front, nbr, P), S)
                          IN IF T = {} THEN S ELSE Grow(Cup(S, T), T, nbr, P)
Both(K) == Cup(K, {<<k[2], k[1]>> : k \in K})
Comp(V, K, x) == Grow({x}, {x}, Paired(V, Both(K)), Both(K))
Comps(V, K) == LET P == Both(K)
                   nb == Paired(V, P)
                   RECURSIVE C(_, _)
                   C(cs, R) == IF R = {} THEN cs
                               ELSE LET x == CHOOSE x \in R : TRUE
                                        c == Grow({x}, {x}, nb, P) IN C(cs \cup {c}, Less(R, c))
               IN C({}, V)
\* a representative of the part of V every node is in
Classes(V, K) == LET cs == {<<CHOOSE x \in c : TRUE, c>> : c \in Comps(V, K)}
                 IN [x \in V |-> (CHOOSE p \in cs : x \in p[2])[1]]

\* is there a renaming of nodes that keeps labels (texts) and edges?  (small graphs)
FP == INSTANCE TLCExt
\* colour refinement of both graphs at once: nodes of different colours cannot correspond
IsoColours(g, h, A, B, rounds) ==
    LET V == {<<1, x>> : x \in Nodes(g)} \cup {<<2, y>> : y \in Nodes(h)}
        around(i, D, dir, x) ==
            {<<"out", D.e[k], <<i, k[2]>>>> : k \in {k \in DOMAIN D.e : k[1] = x}}
            \cup {<<IF dir THEN "in" ELSE "out", D.e[k], <<i, k[1]>>>> : k \in {k \in DOMAIN D.e : k[2] = x}}
        nbr == TLCEval([v \in V |-> IF v[1] = 1 THEN around(1, A, g.dir, v[2]) ELSE around(2, B, h.dir, v[2])])
        \* colours are fingerprints: equal for equal values
        RECURSIVE Round(_, _)
        Round(c, m) ==
            IF m = 0 THEN c
            ELSE LET bag(v) == LET T == {<<q[1], q[2], c[q[3]]>> : q \in nbr[v]}
                               IN {<<t, Cardinality({q \in nbr[v] : <<q[1], q[2], c[q[3]]>> = t})>> : t \in T}
                     d == TLCEval([v \in V |-> FP!TLCFP(<<c[v], bag(v)>>)])
                 IN IF Cardinality(Range(d)) = Cardinality(Range(c)) THEN c ELSE Round(d, m - 1)
    IN Round(TLCEval([v \in V |-> FP!TLCFP(IF v[1] = 1 THEN A.n[v[2]] ELSE B.n[v[2]])]), rounds)
Isomorphic(g, h) ==
    /\ g.dir = h.dir /\ NodeCount(g) = NodeCount(h) /\ EdgeCount(g) = EdgeCount(h)
    /\ LET A == TLCEval(Labelled(g))
           B == TLCEval(Labelled(h))
           c == TLCEval(IsoColours(g, h, A, B, 8))
           RECURSIVE Ext(_, _)
           Ok(f, x, y) ==
               /\ \A z \in DOMAIN f \cup {x} :
                    LET w == IF z = x THEN y ELSE f[z]
                        k1 == Key(g.dir, x, z)  j1 == Key(h.dir, y, w)
                        k2 == Key(g.dir, z, x)  j2 == Key(h.dir, w, y)
                    IN /\ (k1 \in DOMAIN A.e) = (j1 \in DOMAIN B.e)
                       /\ k1 \in DOMAIN A.e => A.e[k1] = B.e[j1]
                       /\ (k2 \in DOMAIN A.e) = (j2 \in DOMAIN B.e)
                       /\ k2 \in DOMAIN A.e => A.e[k2] = B.e[j2]
           Ext(f, R) == IF R = {} THEN TRUE
                        ELSE LET x == CHOOSE x \in R : TRUE
                             IN \E y \in {y \in Nodes(h) : c[<<2, y>>] = c[<<1, x>>]} \ Range(f) :
                                   Ok(f, x, y) /\ Ext(Put(f, x, y), R \ {x})
       IN /\ \A i \in Range(c) : Cardinality({x \in Nodes(g) : c[<<1, x>>] = i}) = Cardinality({y \in Nodes(h) : c[<<2, y>>] = i})
          /\ Ext(EmptyFn, Nodes(g))

--------------------------------------------------------------------------
(* Reordering.  ord is the sequence of old ids in new order.               *)
Perm(ord, S) == Distinct(ord) /\ Range(ord) = S
NonDecreasing(s, W(_)) == \A i \in 1..(Len(s) - 1) : W(s[i]) <= W(s[i + 1])
\* nord, norder of node label ids, eorder of edge label ids: options of sequences
RenameG(g, nord, nlord, elord) ==
    LET pos == IF IsNone(nord) THEN EmptyFn ELSE Index(nord[1])
        id == IF IsNone(nord) THEN [x \in Nodes(g) |-> x] ELSE [x \in Nodes(g) |-> pos[x] - 1]
        old(y) == IF IsNone(nord) THEN y ELSE nord[1][y + 1]
        npos == IF IsNone(nlord) THEN EmptyFn ELSE Index(nlord[1])
        epos == IF IsNone(elord) THEN EmptyFn ELSE Index(elord[1])
        nl(o) == IF IsNone(nlord) \/ IsNone(o) THEN o ELSE Some(npos[o[1]] - 1)
        el(o) == IF IsNone(elord) \/ IsNone(o) THEN o ELSE Some(epos[o[1]] - 1)
        V == Range(id)
        K == {Key(g.dir, id[k[1]], id[k[2]]) : k \in Edges(g)}
    IN [g EXCEPT !.n = [y \in V |-> nl(g.n[old(y)])],
                 !.e = [k \in K |-> el(g.e[Key(g.dir, old(k[1]), old(k[2]))])],
                 !.nm = IF IsNone(nlord) THEN @ ELSE [i \in DOMAIN nlord[1] |-> g.nm[nlord[1][i] + 1]],
                 !.em = IF IsNone(elord) THEN @ ELSE [i \in DOMAIN elord[1] |-> g.em[elord[1][i] + 1]],
                 !.mx = IF V = {} THEN None ELSE Some(MaxOf(V))]
UsedN(g) == {g.n[i][1] : i \in {i \in Nodes(g) : g.n[i] # None}}
UsedE(g) == {g.e[k][1] : k \in {k \in Edges(g) : g.e[k] # None}}
\* how many nodes, edges have a label; then for all labels at once
NFreq(g, l) == Cardinality({i \in Nodes(g) : g.n[i] = <<l>>})
EFreq(g, l) == Cardinality({k \in Edges(g) : g.e[k] = <<l>>})
NFreqs(g) == PairedSizes(UsedN(g), {<<g.n[i][1], i>> : i \in {i \in Nodes(g) : g.n[i] # None}})
EFreqs(g) == LET q == SQ!SetToSeq({k \in Edges(g) : g.e[k] # None})
             IN PairedSizes(UsedE(g), {<<g.e[q[j]][1], j>> : j \in DOMAIN q})
=============================================================================
