------------------------------ MODULE LabelMap ------------------------------
(***************************************************************************)
(* Two label tables as the library keeps them: the set table as a vector   *)
(* of entries plus an index from item to position, the list table as a     *)
(* plain vector searched from the front.  Interning, popping, clearing,    *)
(* conversion between the kinds, cloning and comparison run in lockstep    *)
(* with the table operations of RustGraph.                                 *)
(***************************************************************************)
EXTENDS RustGraph

CONSTANTS Items, Emit
VARIABLES t, r, op
lvars == <<vars, t, r, op>>
H == {1, 2}
EmptyT(k) == [k |-> k, v |-> <<>>, idx |-> EmptyFn]
LInit == /\ st = EmptyFn /\ fs = EmptyFn /\ it = EmptyFn /\ cc = EmptyFn /\ rep = None
         /\ \E a, b \in {"set", "vec"} : /\ tb = (1 :> [k |-> a, s |-> <<>>]) @@ (2 :> [k |-> b, s |-> <<>>])
                                         /\ t = (1 :> EmptyT(a)) @@ (2 :> EmptyT(b))
         /\ r = None /\ op = ""
\* linear search from the front
RECURSIVE Scan(_, _, _)
Scan(v, a, i) == IF i > Len(v) THEN None ELSE IF v[i] = a THEN Some(i - 1) ELSE Scan(v, a, i + 1)
FindI(x, a) == IF x.k = "set" THEN (IF a \in DOMAIN x.idx THEN Some(x.idx[a]) ELSE None) ELSE Scan(x.v, a, 1)
Insert(x, a) == IF FindI(x, a) # None THEN x
                ELSE [x EXCEPT !.v = Append(@, a), !.idx = IF x.k = "set" THEN Put(@, a, Len(x.v)) ELSE @]
PopI(x) == IF x.v = <<>> THEN x
           ELSE [x EXCEPT !.v = SubSeq(@, 1, Len(@) - 1),
                          !.idx = IF x.k = "set" THEN Drop(@, {x.v[Len(x.v)]}) ELSE @]
Collect(k, s) == FoldL(Insert, EmptyT(k), s)
Add(h, a) == /\ AddTb(h, a) /\ t' = [t EXCEPT ![h] = Insert(@, a)]
             /\ r' = FindI(t'[h], a)[1] /\ op' = "a" \o ToString(h) \o a
Pop(h) == /\ PopTb(h) /\ t' = [t EXCEPT ![h] = PopI(@)]
          /\ r' = (IF t[h].v = <<>> THEN None ELSE Some(t[h].v[Len(t[h].v)])) /\ op' = "p" \o ToString(h)
Clear(h) == ClearTb(h) /\ t' = [t EXCEPT ![h] = EmptyT(t[h].k)] /\ r' = None /\ op' = "c" \o ToString(h)
\* to the list kind the vector is taken over, to the set kind it is collected
Conv(a, h, k) == /\ a # h /\ ConvertTb(a, h, k)
                 /\ t' = [t EXCEPT ![h] = IF k = "vec" THEN [EmptyT("vec") EXCEPT !.v = t[a].v] ELSE Collect("set", t[a].v)]
                 /\ r' = None /\ op' = "x" \o ToString(a) \o ToString(h) \o (IF k = "set" THEN "s" ELSE "v")
\* equality of the set kind ignores order
Eq == /\ t[1].k = t[2].k /\ EqualTb(1, 2) /\ UNCHANGED t
      /\ r' = (IF t[1].k = "set" THEN Len(t[1].v) = Len(t[2].v) /\ \A i \in DOMAIN t[1].v : t[1].v[i] \in DOMAIN t[2].idx
               ELSE t[1].v = t[2].v)
      /\ op' = "q"
LNext == \/ \E h \in H, a \in Items : Add(h, a)
         \/ \E h \in H : Pop(h) \/ Clear(h)
         \/ \E a, h \in H, k \in {"set", "vec"} : Conv(a, h, k)
         \/ Eq
LSpec == LInit /\ [][LNext]_lvars

Dense1 == \A h \in H : /\ t[h].k = tb[h].k /\ t[h].v = tb[h].s
                       /\ Distinct(t[h].v)
                       /\ t[h].k = "set" => /\ DOMAIN t[h].idx = Range(t[h].v)
                                            /\ \A a \in DOMAIN t[h].idx : t[h].v[t[h].idx[a] + 1] = a
                       /\ \A a \in Items : FindI(t[h], a) = (IF HasItem(tb[h].s, a) THEN Some(IdOf(tb[h].s, a)) ELSE None)
Replies == r' = rep'
\* an index never changes while the item stays in
Stable == \A h \in H : \A a \in Items :
            FindI(t[h], a) # None /\ FindI(t'[h], a) # None /\ op' # "x12s" /\ op' # "x21s" /\ op' # "x12v" /\ op' # "x21v"
              => FindI(t[h], a) = FindI(t'[h], a)
\* hash: length and a commutative sum over the items
HashOf(x) == <<Len(x.v), [a \in Items |-> Count(x.v, a)]>>
EqualHashEqual == t[1].k = "set" /\ t[2].k = "set" /\ Range(t[1].v) = Range(t[2].v) => HashOf(t[1]) = HashOf(t[2])
Steps == [][Replies /\ Stable]_lvars
View == <<tb, t>>
Shape == tb
KeyT(x) == ToString(<<x[1], x[2]>>)
EmitT == ~Emit \/ PrintT("T|" \o KeyT(tb) \o "|" \o op' \o "|" \o KeyT(tb'))
=============================================================================
