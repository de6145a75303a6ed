------------------------------ MODULE Subgraphs ------------------------------
(***************************************************************************)
(* Enumerating connected subgraphs as the library does it: roots from the  *)
(* component detection, then every node and every edge is put into the     *)
(* graph of its root, graphs being created on first use.  Nodes and edges  *)
(* come in any order, as they do from a hash map.                          *)
(***************************************************************************)
EXTENDS RustGraph

CONSTANTS N, Dir, NLabs, ELabs
VARIABLES g, root, todoN, todoE, subs, roots
svars == <<g, root, todoN, todoE, subs, roots>>

Keys(V) == {k \in V \X V : Dir \/ k[1] <= k[2]}
LidsOf(S) == {None} \cup {Some(i) : i \in 0..(Cardinality(S) - 1)}
TabOf(S) == LET RECURSIVE Q(_)
                Q(T) == IF T = {} THEN <<>> ELSE LET a == CHOOSE a \in T : TRUE IN <<a>> \o Q(T \ {a})
            IN Q(S)
SInit ==
    /\ Init
    /\ \E V \in SUBSET (0..(N - 1)) : \E E \in SUBSET Keys(V) :
         \E nf \in [V -> LidsOf(NLabs)] : \E ef \in [E -> LidsOf(ELabs)] :
           g = [dir |-> Dir, n |-> nf, e |-> ef, nm |-> TabOf(NLabs), em |-> TabOf(ELabs),
                mx |-> IF V = {} THEN None ELSE Some(MaxOf(V)), im |-> "map"]
    \* any choice of a representative per component
    /\ root \in {f \in [Nodes(g) -> Nodes(g)] :
                   \A c \in Comps(Nodes(g), Edges(g)) : \E r \in c : \A v \in c : f[v] = r}
    /\ todoN = Nodes(g) /\ todoE = Edges(g) /\ subs = <<>> /\ roots = <<>>

At(r) == IF \E i \in DOMAIN roots : roots[i] = r THEN CHOOSE i \in DOMAIN roots : roots[i] = r ELSE 0
Into(r, F(_)) == LET i == At(r)
                 IN IF i # 0 THEN subs' = [subs EXCEPT ![i] = F(@)] /\ roots' = roots
                    ELSE subs' = Append(subs, F(EmptyG(Dir, <<>>, <<>>))) /\ roots' = Append(roots, r)
PutNode(v) == /\ Into(root[v], LAMBDA h : AddNodeG(h, v, NLab(g, v)))
              /\ todoN' = todoN \ {v} /\ UNCHANGED <<g, root, todoE, vars>>
PutEdge(k) == /\ todoN = {}
              /\ Into(root[k[1]], LAMBDA h : AddEdgeG(h, k[1], k[2], ELab(g, k[1], k[2])))
              /\ todoE' = todoE \ {k} /\ UNCHANGED <<g, root, todoN, vars>>
SNext == (\E v \in todoN : PutNode(v)) \/ (\E k \in todoE : PutEdge(k))
SSpec == SInit /\ [][SNext]_<<svars, vars>>
Done == todoN = {} /\ todoE = {}
Partition == Done => IsSubgraphs(g, subs)
EachElementOnce ==
    Done => /\ SumF([i \in DOMAIN subs |-> NodeCount(subs[i])]) = NodeCount(g)
            /\ SumF([i \in DOMAIN subs |-> EdgeCount(subs[i])]) = EdgeCount(g)
\* components all at once are components edge by edge, whatever was known before
Apart(c) == [k \in (DOMAIN c) \X (DOMAIN c) |-> c[k[1]] = c[k[2]]]
ClassesAgree ==
    todoN = Nodes(g) /\ subs = <<>> =>
      \A c \in {EmptyFn, Join(EmptyFn, <<0, N>>), Join(Join(EmptyFn, <<0, 1>>), <<N, 1>>)} :
        Apart(JoinGraph(c, g)) =
        Apart(FSE!FoldSet(LAMBDA k, d : Join(d, k), FSE!FoldSet(LAMBDA v, d : Know(d, v), c, Nodes(g)), Edges(g)))
=============================================================================
