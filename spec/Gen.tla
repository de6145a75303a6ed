--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* The generators as the library runs them: an empty graph with n nodes,   *)
(* then one pass over all pairs (both orientations when directed), keeping *)
(* every pair, each pair by a coin toss, or a reservoir sample of m pairs. *)
(* Coins, label draws and reservoir replacements are nondeterministic;     *)
(* every outcome must be one the specification admits, and the admitted    *)
(* family must be exactly what can come out.                               *)
(***************************************************************************)
EXTENDS RustGraph

CONSTANTS Kind, Dir, N, M, NLabs, ELabs  \* NLabs, ELabs: sequences of offered labels (repetition allowed)
L0 == <<>>
L1 == <<"a">>
L2 == <<"a", "b", "a">>
VARIABLES x, i, pairs, keep, phase
gvars == <<x, i, pairs, keep, phase, vars>>

RECURSIVE PairsFrom(_, _)
PairsFrom(a, b) == IF a >= N THEN <<>> ELSE IF b >= N THEN PairsFrom(a + 1, a + 2)
                   ELSE (IF Dir THEN <<<<a, b>>, <<b, a>>>> ELSE <<<<a, b>>>>) \o PairsFrom(a, b + 1)
NTab == InternAll(<<>>, NLabs)
ETab == InternAll(<<>>, ELabs)
Draw(tab) == IF tab = <<>> THEN {None} ELSE {Some(tab[j]) : j \in DOMAIN tab}
GInit == /\ Init /\ x = EmptyG(Dir, NTab, ETab) /\ i = 0 /\ pairs = PairsFrom(0, 1)
         /\ keep = <<>> /\ phase = "nodes"
Nodes1 == /\ phase = "nodes"
          /\ IF i = N THEN phase' = (IF Kind = "empty" THEN "done" ELSE IF Kind = "gnm" THEN "sample" ELSE "edges")
                           /\ i' = 0 /\ x' = x
             ELSE (\E l \in Draw(NTab) : x' = AddNodeG(x, i, l)) /\ i' = i + 1 /\ phase' = phase
          /\ UNCHANGED <<pairs, keep>>
\* reservoir sampling: the first m, then each later pair may replace one
Sample1 == /\ phase = "sample"
           /\ IF i = Len(pairs)
              THEN phase' = (IF Len(keep) = M THEN "edges" ELSE "refused") /\ i' = 0 /\ keep' = keep
              ELSE /\ i' = i + 1 /\ phase' = phase
                   /\ IF Len(keep) < M THEN keep' = Append(keep, pairs[i + 1])
                      ELSE \/ keep' = keep
                           \/ \E j \in DOMAIN keep : keep' = [keep EXCEPT ![j] = pairs[i + 1]]
           /\ UNCHANGED <<x, pairs>>
Source == IF Kind = "gnm" THEN keep ELSE pairs
Take == CASE Kind \in {"complete", "gnm", "gnp1"} -> {TRUE}
          [] Kind = "gnp0" -> {FALSE}
          [] Kind = "gnp" -> {TRUE, FALSE}
Edges1 == /\ phase = "edges"
          /\ IF i = Len(Source) THEN phase' = "done" /\ i' = i /\ x' = x
             ELSE /\ i' = i + 1 /\ phase' = phase
                  /\ \E t \in Take : IF t THEN \E l \in Draw(ETab) : x' = AddEdgeG(x, Source[i + 1][1], Source[i + 1][2], l)
                                     ELSE x' = x
          /\ UNCHANGED <<pairs, keep>>
GNext == (Nodes1 \/ Sample1 \/ Edges1) /\ UNCHANGED vars
GSpec == GInit /\ [][GNext]_gvars

Admitted == phase = "done" => IsGenerated(Kind, Dir, N, M, NLabs, ELabs, x)
RefusedRightly == /\ phase = "refused" => GenRefused(Kind, Dir, N, M, FALSE)
                  /\ phase = "done" => ~GenRefused(Kind, Dir, N, M, FALSE)
PairsAreAllPairs == Range(pairs) = CompleteKeys(Dir, N) /\ Distinct(pairs)
=============================================================================
