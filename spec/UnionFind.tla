------------------------------ MODULE UnionFind ------------------------------
(***************************************************************************)
(* Connected components as the library computes them: a parent map whose   *)
(* paths are halved by every query, and a component counter.  It runs in   *)
(* lockstep with the partition of RustGraph (handle 1).  Nodes, edges,     *)
(* queries, clones and resets come in any order.                           *)
(***************************************************************************)
EXTENDS RustGraph

CONSTANTS N, Emit
VARIABLES par, cnt, op
allv == <<vars, par, cnt, op>>
Ids == 0..(N - 1)

Known(p, v) == v \in DOMAIN p
\* <<parent map after halving, root>>
RECURSIVE Root(_, _)
Root(p, v) == IF p[v] = v THEN <<p, v>>
              ELSE LET pp == p[p[v]] IN Root([p EXCEPT ![v] = pp], pp)
Enter(p, v) == IF Known(p, v) THEN p ELSE Put(p, v, v)
Entered(p, v) == IF Known(p, v) THEN 0 ELSE 1

UInit == Init /\ par = EmptyFn /\ cnt = 0 /\ op = ""
NewOne == NewCc(1) /\ par' = EmptyFn /\ cnt' = 0 /\ op' = "z"
\* detection on a graph starts with its nodes
NodeIn(v) == /\ SetCc(1, Know(cc[1], v))
             /\ par' = Enter(par, v) /\ cnt' = cnt + Entered(par, v) /\ op' = "n" \o ToString(v)
EdgeIn(s, t) ==
    LET p1 == Enter(par, s)
        p2 == Enter(p1, t)
        a == Root(p2, s)
        b == Root(a[1], t)
        c == cnt + Entered(par, s) + Entered(p1, t)
    IN /\ EdgeCc(1, s, t)
       /\ par' = IF a[2] # b[2] THEN [b[1] EXCEPT ![a[2]] = b[2]] ELSE b[1]
       /\ cnt' = IF a[2] # b[2] THEN c - 1 ELSE c
       /\ op' = "e" \o ToString(s) \o ToString(t)
Query(v) == /\ par' = IF Known(par, v) THEN Root(par, v)[1] ELSE par
            /\ cnt' = cnt /\ op' = "q" \o ToString(v) /\ UNCHANGED vars
\* all of get_connected_nodes: the root of every known node is asked for
RECURSIVE AskAll(_, _)
AskAll(p, s) == IF s = <<>> THEN p ELSE AskAll(Root(p, Head(s))[1], Tail(s))
List == /\ par' = AskAll(par, SortedSeq(DOMAIN par)) /\ cnt' = cnt /\ op' = "l" /\ UNCHANGED vars
UNext == IF 1 \notin DOMAIN cc THEN NewOne
         ELSE \/ \E v \in Ids : NodeIn(v) \/ Query(v)
              \/ \E s, t \in Ids : EdgeIn(s, t)
              \/ List \/ NewOne
USpec == UInit /\ [][UNext]_allv

P == cc[1]
RootOf(v) == Root(par, v)[2]
SamePartition ==
    1 \in DOMAIN cc =>
      /\ DOMAIN par = DOMAIN P
      /\ \A v, w \in DOMAIN P : (RootOf(v) = RootOf(w)) = (P[v] = P[w])
      /\ \A v \in DOMAIN P : par[v] \in Members(P, v) /\ RootOf(v) \in Members(P, v)
      /\ cnt = Cardinality({P[v] : v \in DOMAIN P})
      /\ cnt = Cardinality({v \in DOMAIN par : par[v] = v})
QueriesChangeNothing == [][op' \in {"l"} \/ op' \in {"q" \o ToString(v) : v \in Ids} =>
                             P' = P /\ \A v \in DOMAIN par : Root(par', v)[2] = RootOf(v)]_allv
View == <<cc, par, cnt>>
Shape == cc
PartKey(c) == IF 1 \in DOMAIN c THEN ToString({{w \in DOMAIN c[1] : c[1][w] = c[1][v]} : v \in DOMAIN c[1]}) ELSE "?"
EmitT == ~Emit \/ PrintT("T|" \o PartKey(cc) \o "|" \o op' \o "|" \o PartKey(cc'))
=============================================================================
