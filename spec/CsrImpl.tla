------------------------------- MODULE CsrImpl -------------------------------
(***************************************************************************)
(* The compact representation as the library builds and reads it: the      *)
(* conversion loop of into_static (one node per step, offsets and label    *)
(* vectors grown on the way), binary search for an edge position, the      *)
(* counting of undirected edges, and the edge iterator with its two        *)
(* cursors.  Every graph over at most N ids is an initial state; the ids   *)
(* need not be dense (Gaps).  TLC checks that the vectors are the          *)
(* specified encoding, decode to the specified graph, answer every query   *)
(* as it does, and that the iterator emits every edge once.                *)
(***************************************************************************)
EXTENDS Csr

CONSTANTS N, Dir, NLids, ELids, Gaps
VARIABLES g, pc, nid, vec, cn, ci, out
vars == <<g, pc, nid, vec, cn, ci, out>>

Sentinel == 9
LidsOf(S) == {None} \cup {Some(x) : x \in S}
Tab(S) == [i \in 1..Cardinality(S) |-> i - 1]
Vs == IF Gaps THEN SUBSET (0..(N - 1)) ELSE {0..(k - 1) : k \in 0..N}
AllKeys(V) == {k \in V \X V : Dir \/ k[1] <= k[2]}
Graphs0 == UNION {UNION {{[dir |-> Dir, n |-> nf, e |-> ef, nm |-> Tab(NLids), em |-> Tab(ELids),
                           mx |-> IF V = {} THEN None ELSE Some(MaxOf(V)), im |-> "map"] :
                            nf \in [V -> LidsOf(NLids)], ef \in [E -> LidsOf(ELids)]} : E \in SUBSET AllKeys(V)} : V \in Vs}

Width == IF Nodes(g) = {} THEN 0 ELSE MaxOf(Nodes(g)) + 1
LabelledN == g.nm # <<>>
LabelledE == g.em # <<>>
Raw(o) == IF IsNone(o) THEN Sentinel ELSE o[1]

Init == /\ g \in Graphs0
        /\ pc = "conv" /\ nid = 0
        /\ vec = [off |-> <<0>>, edg |-> <<>>, el |-> IF LabelledE THEN Some(<<>>) ELSE None,
                  nl |-> IF LabelledN THEN Some(<<>>) ELSE None,
                  ioff |-> IF Dir THEN <<0>> ELSE <<>>, iedg |-> <<>>,
                  ne |-> EdgeCount(g), nn |-> NodeCount(g)]
        /\ cn = 0 /\ ci = 0 /\ out = <<>>

Last(s) == s[Len(s)]
Convert ==
    /\ pc = "conv"
    /\ IF nid = Width THEN pc' = "iter" /\ UNCHANGED <<nid, vec>>
       ELSE /\ nid' = nid + 1 /\ pc' = pc
            /\ LET here == nid \in Nodes(g)
                   nb == IF here THEN SortedSeq(Out(g, nid)) ELSE <<>>
                   ib == IF here /\ Dir THEN SortedSeq(In(g, nid)) ELSE <<>>
               IN vec' = [vec EXCEPT !.off = Append(@, Last(@) + Len(nb)),
                                     !.edg = @ \o nb,
                                     !.el = IF LabelledE THEN Some(@[1] \o [j \in DOMAIN nb |-> Raw(ELid(g, nid, nb[j]))]) ELSE @,
                                     !.nl = IF LabelledN THEN Some(Append(@[1], IF here THEN Raw(g.n[nid]) ELSE Sentinel)) ELSE @,
                                     !.ioff = IF Dir THEN Append(@, Last(@) + Len(ib)) ELSE @,
                                     !.iedg = @ \o ib]
    /\ UNCHANGED <<g, cn, ci, out>>

--------------------------------------------------------------------------
Row(v) == SubSeq(vec.edg, vec.off[v + 1] + 1, vec.off[v + 2])
\* position of x in the sorted sequence s: <<found, 0-based position or insertion point>>
RECURSIVE Search(_, _, _, _)
Search(s, x, lo, hi) == IF lo = hi THEN <<FALSE, lo>>
                        ELSE LET mid == (lo + hi) \div 2
                             IN IF s[mid + 1] = x THEN <<TRUE, mid>>
                                ELSE IF s[mid + 1] < x THEN Search(s, x, mid + 1, hi)
                                ELSE Search(s, x, lo, mid)
BSearch(s, x) == Search(s, x, 0, Len(s))
Find(s, t) == IF s >= NumN(vec.off) \/ t >= NumN(vec.off) THEN None
              ELSE LET b == BSearch(Row(s), t) IN IF b[1] THEN Some(vec.off[s + 1] + b[2]) ELSE None
\* undirected edges are stored twice, loops once
CountUndirected == (Len(vec.edg) + Cardinality({v \in 0..(NumN(vec.off) - 1) : Find(v, v) # None})) \div 2

\* one call of StaticEdgeIndexIter::next, its inner loop unrolled by recursion
RECURSIVE Advance(_, _)
Advance(v, i) ==
    IF v >= NumN(vec.off) THEN <<v, 0, FALSE>>
    ELSE LET r == Row(v)
         IN IF i >= Len(r) THEN Advance(v + 1, 0)
            ELSE IF ~Dir /\ r[i + 1] < v
                 THEN LET b == BSearch(r, v)
                      IN IF b[1] \/ b[2] < Len(r) THEN <<v, b[2], TRUE>> ELSE Advance(v + 1, 0)
                 ELSE <<v, i, TRUE>>
Iterate ==
    /\ pc = "iter"
    /\ LET a == Advance(cn, ci)
       IN /\ cn' = a[1]
          /\ IF a[3] THEN ci' = a[2] + 1 /\ out' = Append(out, <<a[1], Row(a[1])[a[2] + 1]>>) /\ pc' = pc
             ELSE ci' = a[2] /\ out' = out /\ pc' = "done"
    /\ UNCHANGED <<g, nid, vec>>
Next == Convert \/ Iterate
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

--------------------------------------------------------------------------
Ready == pc # "conv"
IsDense == Dense(g)
OnesOf(s) == {s[i] : i \in DOMAIN s}
VectorsAreTheEncoding ==
    Ready /\ IsDense =>
      /\ vec.off = EncOff(g, LAMBDA i : Out(g, i)) /\ vec.edg = EncEdg(g, LAMBDA i : Out(g, i))
      /\ LabelledE => vec.el[1] = EncLab(g, Sentinel)
      /\ LabelledN => vec.nl[1] = EncNl(g, Sentinel)
      /\ Dir => vec.ioff = EncOff(g, LAMBDA i : In(g, i)) /\ vec.iedg = EncEdg(g, LAMBDA i : In(g, i))
      \* the predicate used on recorded traces says the same
      /\ IsEnc(vec.off, vec.edg, NodeCount(g), OutPairs(g))
      /\ Dir => IsEnc(vec.ioff, vec.iedg, NodeCount(g), InPairs(g))
      /\ LabelledE => IsEncLab(g, vec.off, vec.edg, vec.el[1], Sentinel)
Decoded == Decode(Dir, vec.off, vec.edg, vec.el, vec.nl, Sentinel, g.nm, g.em)
DecodesToTheGraph ==
    Ready => /\ WellFormedCsr(Dir, vec.off, vec.edg)
             /\ IsDense => Decoded = StaticG(g)
             /\ Edges(Decoded) = Edges(g) /\ \A k \in Edges(g) : Decoded.e[k] = g.e[k]
             /\ \A i \in Nodes(g) : NLid(Decoded, i) = g.n[i]
QueriesAgree ==
    Ready => /\ \A s, t \in 0..N : /\ Find(s, t) = Position(vec.off, vec.edg, s, t)
                                   /\ (Find(s, t) # None) = HasE(g, s, t)
                                   /\ LabelledE /\ HasE(g, s, t) =>
                                         LidOpt(vec.el[1][Find(s, t)[1] + 1], Sentinel) = ELid(g, s, t)
             /\ \A v \in Nodes(g) : OnesOf(Row(v)) = Out(g, v) /\ Increasing(Row(v))
CountsAgree == Ready => (IF Dir THEN Len(vec.edg) ELSE CountUndirected) = EdgeCount(g)
\* the iterator: increasing, hence no repetition; only edges; at the end all of them
Lex(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
EmitsOnlyEdgesInOrder ==
    /\ \A i \in 1..(Len(out) - 1) : Lex(out[i], out[i + 1])
    /\ \A i \in DOMAIN out : out[i] \in Edges(g)
EmitsAll == pc = "done" => Len(out) = EdgeCount(g) /\ OnesOf(out) = Edges(g)
Finishes == <>(pc = "done")
StripsOnlyLabels ==
    Ready /\ IsDense =>
      /\ Decode(Dir, vec.off, vec.edg, vec.el, None, Sentinel, <<>>, g.em) = StripNodesG(StaticG(g))
      /\ Decode(Dir, vec.off, vec.edg, None, vec.nl, Sentinel, g.nm, <<>>) = StripEdgesG(StaticG(g))
=============================================================================
