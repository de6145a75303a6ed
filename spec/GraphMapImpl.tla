---------------------------- MODULE GraphMapImpl ----------------------------
(***************************************************************************)
(* The mutable graph as the library builds it: a map from ids to node      *)
(* records with an ordered out-neighbour map and an in-neighbour set, an   *)
(* edge counter maintained by hand, and a running maximum.  Every public   *)
(* operation runs in lockstep with the operation of the system             *)
(* specification (RustGraph, handle 1); TLC checks that the record         *)
(* structure always denotes the specified graph, that every reply and      *)
(* every observer agree, and prints the transitions, from which the test   *)
(* schedules that are replayed into the real code are cut.                 *)
(***************************************************************************)
EXTENDS RustGraph

CONSTANTS K,        \* number of ids: 0..K-1
          NLabs, ELabs, \* label texts
          Dir,      \* directed?
          Emit,     \* print the transitions?
          Handles   \* writes through mutable handles too?

VARIABLES m,        \* the record structure
          r,        \* the reply computed on it
          op        \* the operation, as the harness reads it

allvars == <<vars, m, r, op>>
Ids == 0..(K - 1)
NL == {None} \cup {Some(x) : x \in NLabs}
EL == {None} \cup {Some(x) : x \in ELabs}
Lids(S) == {None} \cup {Some(i) : i \in 0..(Cardinality(S) - 1)}

--------------------------------------------------------------------------
(* The structure and its operations, as in graph_map/graph.rs.             *)
EmptyM == [nd |-> EmptyFn, cnt |-> 0, mx |-> None, nm |-> <<>>, em |-> <<>>]
NewNode(l) == [lid |-> l, out |-> EmptyFn, inn |-> {}]
MHasNode(x, id) == id \in DOMAIN x.nd
MHasEdge(x, s, t) == MHasNode(x, s) /\ t \in DOMAIN x.nd[s].out
\* <<structure, was it new?>>
MAddNode(x, id, lab) ==
    LET tab == InternOpt(x.nm, lab)
        lid == IdOfOpt(tab, lab)
        y == [x EXCEPT !.nm = tab]
    IN IF MHasNode(x, id) THEN <<[y EXCEPT !.nd[id].lid = lid], FALSE>>
       ELSE <<[y EXCEPT !.nd = Put(@, id, NewNode(lid)),
                        !.mx = IF @ = None THEN Some(id) ELSE IF @[1] < id THEN Some(id) ELSE @], TRUE>>
MPutOut(x, s, t, lid) == [x EXCEPT !.nd[s].out = Put(@, t, lid)]
MAddEdge(x, s, t, lab) ==
    LET x1 == IF MHasNode(x, s) THEN x ELSE MAddNode(x, s, None)[1]
        x2 == IF MHasNode(x1, t) THEN x1 ELSE MAddNode(x1, t, None)[1]
        tab == InternOpt(x2.em, lab)
        lid == IdOfOpt(tab, lab)
        isnew == t \notin DOMAIN x2.nd[s].out
        x3 == MPutOut([x2 EXCEPT !.em = tab], s, t, lid)
        x4 == IF Dir THEN [x3 EXCEPT !.nd[t].inn = @ \cup {s}]
              ELSE IF s # t THEN MPutOut(x3, t, s, lid) ELSE x3
    IN <<[x4 EXCEPT !.cnt = IF isnew THEN @ + 1 ELSE @], isnew>>
MRemoveNode(x, id) ==
    IF ~MHasNode(x, id) THEN <<x, None>>
    ELSE LET node == x.nd[id]
             outs == DOMAIN node.out \ {id}
             ins == node.inn \ {id}
             y == [i \in (DOMAIN x.nd) \ {id} |->
                     LET z == x.nd[i]
                     IN IF Dir THEN [z EXCEPT !.inn = IF i \in outs THEN @ \ {id} ELSE @,
                                              !.out = IF i \in ins THEN Drop(@, {id}) ELSE @]
                        ELSE [z EXCEPT !.out = IF i \in outs THEN Drop(@, {id}) ELSE @]]
             loop == IF id \in node.inn THEN 1 ELSE 0
         IN <<[x EXCEPT !.nd = y,
                        !.cnt = @ - (Cardinality(DOMAIN node.out) + Cardinality(node.inn) - loop)],
              Some([id |-> id, lid |-> node.lid, nb |-> DOMAIN node.out, ib |-> node.inn])>>
MRemoveEdge(x, s, t) ==
    IF ~MHasEdge(x, s, t) THEN <<x, None>>
    ELSE LET lid == x.nd[s].out[t]
             y == [x EXCEPT !.nd[s].out = Drop(@, {t})]
             z == IF Dir THEN [y EXCEPT !.nd[t].inn = @ \ {s}]
                  ELSE [y EXCEPT !.nd[t].out = Drop(@, {s})]
         IN <<[z EXCEPT !.cnt = @ - 1], Some(<<s, t, lid>>)>>
MUpdateNode(x, id, lab) == IF MHasNode(x, id) THEN <<MAddNode(x, id, lab)[1], TRUE>> ELSE <<x, FALSE>>
MUpdateEdge(x, s, t, lab) == IF MHasEdge(x, s, t) THEN <<MAddEdge(x, s, t, lab)[1], TRUE>> ELSE <<x, FALSE>>
MSetNode(x, id, l) == IF MHasNode(x, id) THEN <<[x EXCEPT !.nd[id].lid = l], Some(<<id, x.nd[id].lid>>)>>
                      ELSE <<x, None>>
\* one direction only: in an undirected graph the caller has to write both (known finding K1)
MSetEdge(x, s, t, l) == IF MHasEdge(x, s, t)
                        THEN <<MPutOut(x, s, t, l), Some(<<s, t, x.nd[s].out[t]>>)>>
                        ELSE <<x, None>>

\* observers
MEdges(x) == {<<s, t>> \in (DOMAIN x.nd) \X (DOMAIN x.nd) : t \in DOMAIN x.nd[s].out /\ (Dir \/ s <= t)}
MDegree(x, i) == Cardinality(DOMAIN x.nd[i].out)
MRefine(x) == [x EXCEPT !.cnt = Cardinality(MEdges(x))]

--------------------------------------------------------------------------
Str(o) == IF IsNone(o) THEN "-" ELSE o[1]
LidStr(o) == IF IsNone(o) THEN "-" ELSE ToString(o[1])
G == st[1]
Do(res, text) == m' = res[1] /\ r' = res[2] /\ op' = text

SMInit == /\ st = (1 :> EmptyG(Dir, <<>>, <<>>))
          /\ fs = EmptyFn /\ it = EmptyFn /\ cc = EmptyFn /\ tb = EmptyFn /\ rep = None
          /\ m = EmptyM /\ r = None /\ op = ""
Next ==
    \/ \E i \in Ids, l \in NL : AddNode(1, i, l) /\ Do(MAddNode(m, i, l), "n" \o ToString(i) \o Str(l))
    \/ \E i, j \in Ids, l \in EL : AddEdge(1, i, j, l) /\ Do(MAddEdge(m, i, j, l), "e" \o ToString(i) \o ToString(j) \o Str(l))
    \/ \E i \in Ids : RemoveNode(1, i) /\ Do(MRemoveNode(m, i), "N" \o ToString(i))
    \/ \E i, j \in Ids : RemoveEdge(1, i, j) /\ Do(MRemoveEdge(m, i, j), "E" \o ToString(i) \o ToString(j))
    \/ \E i \in Ids, l \in NL : UpdateNode(1, i, l) /\ Do(MUpdateNode(m, i, l), "u" \o ToString(i) \o Str(l))
    \/ \E i, j \in Ids, l \in EL : UpdateEdge(1, i, j, l) /\ Do(MUpdateEdge(m, i, j, l), "v" \o ToString(i) \o ToString(j) \o Str(l))
    \/ Housekeeping(1) /\ Do(<<MRefine(m), None>>, "r")
    \/ /\ Handles
       /\ \/ \E i \in Ids, l \in Lids(NLabs) : SetNodeLid(1, i, l) /\ Do(MSetNode(m, i, l), "h" \o ToString(i) \o LidStr(l))
          \/ \E i, j \in Ids, l \in Lids(ELabs) :
               /\ SetEdgeLid(1, i, j, l)
               /\ LET a == MSetEdge(m, i, j, l)
                  IN Do(IF Dir \/ i = j THEN a ELSE <<MSetEdge(a[1], j, i, l)[1], a[2]>>,
                         "k" \o ToString(i) \o ToString(j) \o LidStr(l))
Spec == SMInit /\ [][Next]_allvars

--------------------------------------------------------------------------
(* Refinement: the structure denotes the specified graph.                  *)
Denotes ==
    /\ DOMAIN m.nd = Nodes(G)
    /\ \A i \in Nodes(G) : m.nd[i].lid = G.n[i]
    /\ MEdges(m) = Edges(G)
    /\ \A s, t \in Nodes(G) : MHasEdge(m, s, t) = HasE(G, s, t)
    /\ \A s, t \in Nodes(G) : HasE(G, s, t) => m.nd[s].out[t] = ELid(G, s, t)
    /\ m.nm = G.nm /\ m.em = G.em /\ m.mx = G.mx
Counts == m.cnt = EdgeCount(G) /\ Cardinality(DOMAIN m.nd) = NodeCount(G)
Adjacency ==
    \A i \in Nodes(G) : /\ DOMAIN m.nd[i].out = Out(G, i)
                        /\ m.nd[i].inn = (IF Dir THEN In(G, i) ELSE {})
                        /\ MDegree(m, i) = Deg(G, i)
Mirrored ==
    \A i, j \in DOMAIN m.nd : IF Dir THEN (j \in DOMAIN m.nd[i].out) = (i \in m.nd[j].inn)
                              ELSE j \in DOMAIN m.nd[i].out =>
                                     i \in DOMAIN m.nd[j].out /\ m.nd[j].out[i] = m.nd[i].out[j]
RefineIsNoop == MRefine(m) = m
Sound == WellFormed(G)

(* What the operations promise, as properties of steps of the abstract     *)
(* graph (not of the structure): they bind the specification itself.       *)
H == st'[1]
MaxNeverDrops == G.mx # None => H.mx # None /\ G.mx[1] <= H.mx[1]
TablesOnlyGrow == /\ Len(H.nm) >= Len(G.nm) /\ SubSeq(H.nm, 1, Len(G.nm)) = G.nm
                  /\ Len(H.em) >= Len(G.em) /\ SubSeq(H.em, 1, Len(G.em)) = G.em
AtMostOneEdge == EdgeCount(H) <= EdgeCount(G) + 1
EndpointsExist == \A k \in Edges(H) : k[1] \in Nodes(H) /\ k[2] \in Nodes(H)
OneLabelPerStep ==
    Cardinality({i \in Nodes(G) \cap Nodes(H) : G.n[i] # H.n[i]})
       + Cardinality({k \in Edges(G) \cap Edges(H) : G.e[k] # H.e[k]}) <= 1
Replies == r' = rep'
StepProps == [][Replies /\ MaxNeverDrops /\ TablesOnlyGrow /\ AtMostOneEdge /\ EndpointsExist /\ OneLabelPerStep]_allvars

\* what a state looks like from outside: the label tables only matter through their texts
Key1(g) == IF Handles THEN ToString([a |-> g.n, b |-> g.e, c |-> <<g.nm, g.em>>])
           ELSE ToString([a |-> [i \in Nodes(g) |-> NLab(g, i)], b |-> {<<k, ELab(g, k[1], k[2])>> : k \in Edges(g)}])
View == <<st, m>>
\* (a label id written through a handle may name no label yet)
Shape == IF Handles THEN <<G.n, G.e, G.nm, G.em>>
         ELSE <<[i \in Nodes(G) |-> NLab(G, i)], [k \in Edges(G) |-> ELab(G, k[1], k[2])]>>
EmitT == ~Emit \/ op' = "r" \/ PrintT("T|" \o Key1(G) \o "|" \o op' \o "|" \o Key1(H))
=============================================================================
