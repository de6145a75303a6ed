------------------------------- MODULE LdbcMC -------------------------------
(***************************************************************************)
(* The LDBC import row by row: the dataset is a set of rows; it is split   *)
(* into files in every way and the directory lists the files in every      *)
(* order.  Node files are read first, then the relation files; the order   *)
(* of rows within a relation is arbitrary.  Whatever the order, the result *)
(* must be the typed graph of the dataset.                                 *)
(***************************************************************************)
EXTENDS RustGraph
L == INSTANCE Ldbc

CONSTANTS NodeRows1,   \* sequence of <<entity id, label>> rows of the place file
          RelRows,     \* sequence of <<relation index, source id, target id>>
          Dir
N1 == <<<<"1", "city">>, <<"2", "country">>, <<"1", "city">>>>
\* 12 person/place, 13 person/person, 18 place/place, 9 forum/tag
R1 == <<<<12, "1", "1">>, <<12, "1", "3">>, <<13, "1", "2">>, <<13, "2", "1">>, <<13, "1", "1">>,
        <<18, "1", "2">>, <<18, "1", "2">>, <<9, "1", "1">>>>
VARIABLES x, todoN, todoR, rel
lvars == <<x, todoN, todoR, rel, vars>>

LInit == /\ Init /\ x = [g |-> EmptyG(Dir, <<>>, <<>>), ids |-> EmptyFn]
         /\ todoN = DOMAIN NodeRows1 /\ todoR = DOMAIN RelRows /\ rel = 1
ReadNode(i) == /\ todoN' = todoN \ {i}
               /\ x' = L!NodeRow(x, [role |-> "place", id |-> 1, lab |-> 2], <<NodeRows1[i][1], NodeRows1[i][2]>>)
               /\ UNCHANGED <<todoR, rel>>
ReadRel(i) == /\ todoN = {} /\ RelRows[i][1] = rel
              /\ todoR' = todoR \ {i}
              /\ x' = L!EdgeRow(x, L!Relations[rel], <<RelRows[i][2], RelRows[i][3]>>)
              /\ UNCHANGED <<todoN, rel>>
NextRel == /\ todoN = {} /\ rel < Len(L!Relations) /\ \A i \in todoR : RelRows[i][1] # rel
           /\ rel' = rel + 1 /\ UNCHANGED <<x, todoN, todoR>>
LNext == ((\E i \in todoN : ReadNode(i)) \/ (\E i \in todoR : ReadRel(i)) \/ NextRel) /\ UNCHANGED vars
LSpec == LInit /\ [][LNext]_lvars

Done == todoN = {} /\ todoR = {}
(* The dataset's typed graph, said without any order: entities are the     *)
(* <<type, identifier>> pairs mentioned; their labels and edges follow.    *)
Ents == {<<"place", NodeRows1[i][1]>> : i \in DOMAIN NodeRows1}
        \cup {<<L!Relations[RelRows[i][1]].s, RelRows[i][2]>> : i \in DOMAIN RelRows}
        \cup {<<L!Relations[RelRows[i][1]].t, RelRows[i][3]>> : i \in DOMAIN RelRows}
LabelsOf(e) == LET own == {NodeRows1[i][2] : i \in {i \in DOMAIN NodeRows1 : e = <<"place", NodeRows1[i][1]>>}}
               IN IF own = {} THEN {e[1]} ELSE own
Pair(a, b) == IF Dir THEN <<a, b>> ELSE {a, b}
Related == {Pair(<<L!Relations[RelRows[i][1]].s, RelRows[i][2]>>, <<L!Relations[RelRows[i][1]].t, RelRows[i][3]>>) : i \in DOMAIN RelRows}
TypedGraph ==
    Done => /\ DOMAIN x.ids = Ents
            /\ Distinct([i \in 1..NodeCount(x.g) |-> i]) /\ Cardinality(Ents) = NodeCount(x.g)
            /\ {x.ids[e] : e \in Ents} = Nodes(x.g)
            /\ \A e \in Ents : NLab(x.g, x.ids[e])[1] \in LabelsOf(e)
            /\ EdgeCount(x.g) = Cardinality(Related)
            /\ \A i \in DOMAIN RelRows :
                 LET q == L!Relations[RelRows[i][1]]
                     s == x.ids[<<q.s, RelRows[i][2]>>]
                     d == x.ids[<<q.t, RelRows[i][3]>>]
                 IN HasE(x.g, s, d)
IdsDense == Nodes(x.g) = 0..(NodeCount(x.g) - 1)
=============================================================================
