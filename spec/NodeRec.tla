------------------------------- MODULE NodeRec -------------------------------
(***************************************************************************)
(* The record a mutable graph keeps of one node: its label id, the targets *)
(* of its edges with their label ids, and the sources of its in-edges.     *)
(* The record is public and can be used on its own; both directions are    *)
(* then independent of each other.  A history x is a sequence of events    *)
(* [k |-> kind, a |-> id, l |-> label id, ret |-> what was answered].      *)
(***************************************************************************)
EXTENDS Csr

NewRec(id, lid) == [id |-> id, lid |-> lid, out |-> <<>>, ins |-> {}]
Targets(r) == DOMAIN r.out
Own(r, ids) == [i \in DOMAIN ids |-> <<r.id, ids[i], r.out[ids[i]]>>]
SetOut(r, t, lid) == [r EXCEPT !.out = Put(r.out, t, lid)]
After(r, x) ==
    CASE x.k = "add_edge" -> SetOut(r, x.a, x.l)
      [] x.k = "add_in" -> [r EXCEPT !.ins = @ \cup {x.a}]
      [] x.k = "rem_edge" -> [r EXCEPT !.out = Drop(@, {x.a})]
      [] x.k = "rem_in" -> [r EXCEPT !.ins = @ \ {x.a}]
      [] x.k = "label" -> [r EXCEPT !.lid = x.l]
      [] x.k = "handle" -> IF x.a \in Targets(r) THEN SetOut(r, x.a, x.l) ELSE r
      \* every edge, or every edge to a node that is not smaller, is written
      [] x.k = "all" -> [r EXCEPT !.out = [t \in Targets(r) |-> x.l]]
      [] x.k = "upper" -> [r EXCEPT !.out = [t \in Targets(r) |-> IF t >= r.id THEN x.l ELSE r.out[t]]]
      [] OTHER -> r
Answer(r, x) ==
    LET ts == SortedSeq(Targets(r))
        up == SortedSeq({t \in Targets(r) : t >= r.id})
        is == SortedSeq(r.ins)
        one(t) == IF t \in Targets(r) THEN Some(<<r.id, t, r.out[t]>>) ELSE None
    IN CASE x.k = "add_edge" -> x.a \notin Targets(r)
         [] x.k = "add_in" -> x.a \notin r.ins
         [] x.k \in {"rem_edge", "handle"} -> one(x.a)
         [] x.k = "rem_in" -> x.a \in r.ins
         [] x.k = "label" -> TRUE
         [] x.k = "all" -> Own(r, ts)
         [] x.k = "upper" -> Own(r, up)
         [] x.k = "view" -> [id |-> r.id, lid |-> r.lid, deg |-> Len(ts), indeg |-> Len(is),
                             nb |-> ts, nbi |-> ts, inb |-> is, inbi |-> is, up |-> up,
                             full |-> Own(r, ts), upfull |-> Own(r, up)]
         [] x.k = "ask" -> <<x.a \in Targets(r), x.a \in r.ins,
                             IF x.a \in Targets(r) THEN Some(r.out[x.a]) ELSE None>>
RunRec(id, lid, xs) ==
    FoldL(LAMBDA s, x : [r |-> After(s.r, x), ok |-> s.ok /\ x.ret = Answer(s.r, x)],
          [r |-> NewRec(id, lid), ok |-> TRUE], xs).ok
=============================================================================
