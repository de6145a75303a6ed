------------------------------- MODULE SetOps -------------------------------
(***************************************************************************)
(* Union, difference, boxed clone and equality as the library computes     *)
(* them, element by element, for every pair of graphs over K ids (every    *)
(* combination of directions) and every order in which the elements may    *)
(* come out of the hash maps.                                              *)
(***************************************************************************)
EXTENDS RustGraph

CONSTANTS K, Op, DirA, DirB, NLabs, ELabs
VARIABLES a, b, x, phase, todo
svars == <<a, b, x, phase, todo, vars>>

Keys(dir, V) == {k \in V \X V : dir \/ k[1] <= k[2]}
RECURSIVE Seqs(_)
Seqs(T) == IF T = {} THEN {<<>>} ELSE UNION {{<<l>> \o s : s \in Seqs(T \ {l})} : l \in T}
LidsOf(S) == {None} \cup {Some(i) : i \in 0..(Cardinality(S) - 1)}
\* label tables in every order: the same label may have different ids in a and b
AllGraphs(dir) ==
    UNION {UNION {{[dir |-> dir, n |-> nf, e |-> ef, nm |-> nm, em |-> em,
                    mx |-> IF V = {} THEN None ELSE Some(MaxOf(V)), im |-> "map"] :
                     nf \in [V -> LidsOf(NLabs)], ef \in [E -> LidsOf(ELabs)],
                     nm \in Seqs(NLabs), em \in Seqs(ELabs)} : E \in SUBSET Keys(dir, V)}
           : V \in SUBSET (0..(K - 1))}
Phases == CASE Op = "union" -> <<"na", "nb", "ea", "eb">>
            [] Op = "minus" -> <<"na", "ea", "xn", "xe">>
            [] Op = "clone" -> <<"na", "ea">>
Todo(p) == CASE p = "na" -> Nodes(a)
             [] p = "nb" -> Nodes(b)
             [] p = "xn" -> Nodes(b)
             [] p = "ea" -> Edges(a)
             [] p \in {"eb", "xe"} -> Edges(b)
SInit == /\ Init
         /\ a \in AllGraphs(DirA)
         /\ b \in IF Op = "clone" THEN {EmptyG(DirA, <<>>, <<>>)} ELSE AllGraphs(DirB)
         /\ x = EmptyG(DirA, <<>>, <<>>) /\ phase = 1 /\ todo = Nodes(a)
Apply(p, e) ==
    CASE p = "na" -> AddNodeG(x, e, NLab(a, e))
      [] p = "nb" -> AddNodeG(x, e, NLab(b, e))
      [] p = "ea" -> AddEdgeG(x, e[1], e[2], ELab(a, e[1], e[2]))
      [] p = "eb" -> AddEdgeG(x, e[1], e[2], ELab(b, e[1], e[2]))
      [] p = "xn" -> RemoveNodeG(x, e)
      [] p = "xe" -> RemoveEdgeG(x, e[1], e[2])
SNext == /\ phase <= Len(Phases)
         /\ IF todo = {}
            THEN phase' = phase + 1 /\ x' = x /\ todo' = IF phase < Len(Phases) THEN Todo(Phases[phase + 1]) ELSE {}
            ELSE \E e \in todo : x' = Apply(Phases[phase], e) /\ todo' = todo \ {e} /\ phase' = phase
         /\ UNCHANGED <<a, b, vars>>
SSpec == SInit /\ [][SNext]_svars

Done == phase > Len(Phases)
ResultIsRight ==
    Done => /\ Fresh(x)
            /\ CASE Op = "union" -> /\ IsUnion(a, b, x) /\ MaxIsMax(x)
                                    /\ LET u == UnionL(a, b)
                                       IN /\ Nodes(x) = u.nodes /\ Edges(x) = u.keys
                                          /\ \A i \in u.nodes : NLab(x, i) = u.nlab[i]
                                          /\ \A k \in u.keys : ELab(x, k[1], k[2]) \in u.elabs[k]
                 [] Op = "minus" -> IsMinus(a, b, x)
                 [] Op = "clone" -> IsBoxClone(a, x) /\ MaxIsMax(x)

(* Equality as the library decides it (counts, then elementwise inclusion  *)
(* of the first operand in the second) against equality of labelled graphs.*)
EqualImpl(g, h) ==
    /\ g.dir = h.dir /\ NodeCount(g) = NodeCount(h) /\ EdgeCount(g) = EdgeCount(h)
    /\ \A i \in Nodes(g) : HasN(h, i) /\ NLab(g, i) = NLab(h, i)
    /\ \A k \in Edges(g) : HasE(h, k[1], k[2]) /\ ELab(g, k[1], k[2]) = ELab(h, k[1], k[2])
\* what is hashed: sorted ids with their labels
HashInput(g) == <<g.dir, SortedSeq(Nodes(g)),
                  LET s == SortedSeq(Nodes(g)) IN [i \in DOMAIN s |-> NLab(g, s[i])],
                  Edges(g), [k \in Edges(g) |-> ELab(g, k[1], k[2])]>>
EqualityIsSameness ==
    phase = 1 /\ todo = Nodes(a) => /\ EqualImpl(a, b) = Same(a, b)
                                    /\ EqualImpl(a, b) = EqualImpl(b, a)
                                    /\ Same(a, b) => HashInput(a) = HashInput(b)
\* a union with itself, and with nothing, changes nothing
UnionLaws == Done /\ Op = "union" /\ (b = a \/ Nodes(b) = {}) => Same(x, a)
MinusLaws == Done /\ Op = "minus" => /\ Nodes(b) = {} => Same(x, a)
                                     /\ b = a => Nodes(x) = {}
=============================================================================
