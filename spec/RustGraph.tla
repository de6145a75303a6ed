------------------------------ MODULE RustGraph ------------------------------
(***************************************************************************)
(* The system specification: every public operation of the library as one  *)
(* named action over                                                       *)
(*   st  handle -> graph value      (mutable, static, memory-mapped, boxed)*)
(*   fs  location -> file content   (dumps, exports, CSV)                  *)
(*   it  handle -> traversal state  (breadth-first / depth-first)          *)
(*   cc  handle -> component state  (connected components)                 *)
(*   tb  handle -> label table                                             *)
(*   rep the reply the last operation has to give                          *)
(* Operations whose outcome is not determined by the inputs (label order   *)
(* of a union, random generators, tie order of a reordering, traversal     *)
(* order ...) take the outcome as an argument and are enabled for exactly  *)
(* the admissible outcomes.                                                *)
(***************************************************************************)
EXTENDS Csr

VARIABLES st, fs, it, cc, tb, rep
vars == <<st, fs, it, cc, tb, rep>>

SetSt(h, g) == st' = Put(st, h, g)
KeepSt == UNCHANGED st
OnlyGraphs == UNCHANGED <<fs, it, cc, tb>>

Init == st = EmptyFn /\ fs = EmptyFn /\ it = EmptyFn /\ cc = EmptyFn /\ tb = EmptyFn /\ rep = None

--------------------------------------------------------------------------
(* Mutable graphs.                                                         *)
New(h, dir, nm, em, edges) ==
    /\ SetSt(h, FoldL(LAMBDA g, p : AddEdgeG(g, p[1], p[2], None),
                      EmptyG(dir, InternAll(<<>>, nm), InternAll(<<>>, em)), edges))
    /\ rep' = None /\ OnlyGraphs
(* Many additions at once, so that large graphs stay affordable: nodes 0,  *)
(* step, 2*step, ... and the given edges; labels follow from the ids.      *)
BulkLid(x, c) == IF c = 0 \/ x % (c + 1) = 0 THEN None ELSE Some((x % (c + 1)) - 1)
BulkG(dir, k, step, nm, em, es) ==
    LET N == {i * step : i \in 0..(k - 1)}
    IN [dir |-> dir,
        n |-> [x \in N |-> BulkLid(x, Len(nm))],
        e |-> [x \in {Key(dir, p[1], p[2]) : p \in Range(es)} |-> BulkLid(x[1] + x[2], Len(em))],
        nm |-> nm, em |-> em,
        mx |-> IF k = 0 THEN None ELSE Some((k - 1) * step),
        im |-> "map"]
Bulk(h, dir, k, step, nm, em, es) == SetSt(h, BulkG(dir, k, step, nm, em, es)) /\ rep' = None /\ OnlyGraphs
Mutable(h) == h \in DOMAIN st /\ st[h].im = "map"
AddNode(h, id, lab) ==
    /\ Mutable(h) /\ rep' = ~HasN(st[h], id)
    /\ SetSt(h, AddNodeG(st[h], id, lab)) /\ OnlyGraphs
AddEdge(h, s, t, lab) ==
    /\ Mutable(h) /\ rep' = ~HasE(st[h], s, t)
    /\ SetSt(h, AddEdgeG(st[h], s, t, lab)) /\ OnlyGraphs
\* the removed node: id, label id, neighbours, in-neighbours (directed only)
RemoveNode(h, id) ==
    LET g == st[h]
    IN /\ Mutable(h)
       /\ rep' = IF HasN(g, id) THEN Some([id |-> id, lid |-> g.n[id], nb |-> Out(g, id),
                                           ib |-> IF g.dir THEN In(g, id) ELSE {}])
                 ELSE None
       /\ SetSt(h, RemoveNodeG(g, id)) /\ OnlyGraphs
RemoveEdge(h, s, t) ==
    LET g == st[h]
    IN /\ Mutable(h)
       /\ rep' = IF HasE(g, s, t) THEN Some(<<s, t, ELid(g, s, t)>>) ELSE None
       /\ SetSt(h, RemoveEdgeG(g, s, t)) /\ OnlyGraphs
UpdateNode(h, id, lab) ==
    /\ Mutable(h) /\ rep' = HasN(st[h], id)
    /\ SetSt(h, UpdateNodeG(st[h], id, lab)) /\ OnlyGraphs
UpdateEdge(h, s, t, lab) ==
    /\ Mutable(h) /\ rep' = HasE(st[h], s, t)
    /\ SetSt(h, UpdateEdgeG(st[h], s, t, lab)) /\ OnlyGraphs
AddNodeLabel(h, lab) ==
    LET m == InternOpt(st[h].nm, lab)
    IN Mutable(h) /\ rep' = IdOfOpt(m, lab) /\ SetSt(h, [st[h] EXCEPT !.nm = m]) /\ OnlyGraphs
AddEdgeLabel(h, lab) ==
    LET m == InternOpt(st[h].em, lab)
    IN Mutable(h) /\ rep' = IdOfOpt(m, lab) /\ SetSt(h, [st[h] EXCEPT !.em = m]) /\ OnlyGraphs
\* recounting edges, shrinking memory: no observable effect
Housekeeping(h) == h \in DOMAIN st /\ rep' = None /\ KeepSt /\ OnlyGraphs
\* mutable handles: rep = what the handle shows before the write
SetNodeLid(h, id, lid) ==
    LET g == st[h]
    IN /\ Mutable(h) /\ rep' = IF HasN(g, id) THEN Some(<<id, g.n[id]>>) ELSE None
       /\ SetSt(h, SetNLidG(g, id, lid)) /\ OnlyGraphs
SetEdgeLid(h, s, t, lid) ==
    LET g == st[h]
    IN /\ Mutable(h) /\ rep' = IF HasE(g, s, t) THEN Some(<<s, t, ELid(g, s, t)>>) ELSE None
       /\ SetSt(h, SetELidG(g, s, t, lid)) /\ OnlyGraphs
\* the whole mutable view: rep = what is enumerated; then the writes
NodesMut(h, writes) ==
    LET g == st[h]
    IN /\ Mutable(h) /\ rep' = {<<i, g.n[i]>> : i \in Nodes(g)}
       /\ SetSt(h, FoldL(LAMBDA x, w : SetNLidG(x, w[1], w[2]), g, writes)) /\ OnlyGraphs
EdgesMut(h, writes) ==
    LET g == st[h]
    IN /\ Mutable(h) /\ rep' = {<<k[1], k[2], g.e[k]>> : k \in Edges(g)}
       /\ SetSt(h, FoldL(LAMBDA x, w : SetELidG(x, w[1], w[2], w[3]), g, writes)) /\ OnlyGraphs
Forget(h) == h \in DOMAIN st /\ st' = Drop(st, {h}) /\ rep' = None /\ OnlyGraphs

--------------------------------------------------------------------------
(* Whole-graph operations.                                                 *)
Compare(a, b) == rep' = Same(st[a], st[b]) /\ KeepSt /\ OnlyGraphs
CloneTyped(a, h) == SetSt(h, st[a]) /\ rep' = None /\ OnlyGraphs
\* an outcome of a boxed clone, union, difference ...: a fresh mutable graph r
Fresh(r) == r.im = "map" /\ WellFormed(r)
MaxNode(g) == IF Nodes(g) = {} THEN None ELSE Some(MaxOf(Nodes(g)))
MaxIsMax(r) == r.mx = MaxNode(r)
\* what came from a may remember the largest id a has seen, the largest it
\* has, or start afresh
MaxFrom(a, r) == r.mx \in {a.mx, MaxNode(a), MaxNode(r)}
\* what was added to a: no id is forgotten
MaxOnto(a, r) == r.mx = IF a.mx = None THEN MaxNode(r)
                        ELSE IF \E i \in Nodes(r) : i > a.mx[1] THEN MaxNode(r) ELSE a.mx
IsBoxClone(a, r) == Fresh(r) /\ r.dir = a.dir /\ Same(a, r) /\ MaxFrom(a, r)
Adopt(h, r) == SetSt(h, r) /\ rep' = None /\ OnlyGraphs
\* conversion of a mutable graph into a static one (dense ids)
ToStatic(a, h) == Mutable(a) /\ Dense(st[a]) /\ SetSt(h, StaticG(st[a])) /\ rep' = None /\ OnlyGraphs
\* conversion with gaps in the ids: only edges and adjacency are promised
ToStaticGap(a, h) ==
    LET g == st[a]
    IN /\ Mutable(a) /\ ~Dense(g)
       /\ SetSt(h, [g EXCEPT !.im = "gap", !.n = [i \in 0..MaxOf(Nodes(g)) |-> None]])
       /\ rep' = None /\ OnlyGraphs
FromVectors(h, dir, off, edg, el, nl, sentinel, nm, em) ==
    /\ WellFormedCsr(dir, off, edg) = TRUE \* one value: TLC would unroll the quantifiers of an action
    /\ SetSt(h, Decode(dir, off, edg, el, nl, sentinel, nm, em))
    /\ rep' = None /\ OnlyGraphs
Strip(h, what) ==
    /\ SetSt(h, CASE what = "nodes" -> StripNodesG(st[h])
                  [] what = "edges" -> StripEdgesG(st[h])
                  [] what = "all" -> StripNodesG(StripEdgesG(st[h])))
    /\ rep' = None /\ OnlyGraphs
IsReorder(g, rn, rl, re, nord, nlord, elord) ==
    /\ (IsNone(nord) <=> ~rn) /\ (IsNone(nlord) <=> ~rl) /\ (IsNone(elord) <=> ~re)
    /\ ~IsNone(nord) => LET out == PairedSizes(Nodes(g), OutPairs(g))
                            in == PairedSizes(Nodes(g), InPairs(g))
                        IN /\ Perm(nord[1], Nodes(g))
                           /\ NonDecreasing(nord[1], LAMBDA x : out[x] + (IF g.dir THEN in[x] ELSE 0))
    /\ ~IsNone(nlord) => LET f == NFreqs(g)
                         IN /\ Perm(nlord[1], UsedN(g))
                            /\ NonDecreasing(nlord[1], LAMBDA x : f[x])
    /\ ~IsNone(elord) => LET f == EFreqs(g)
                         IN /\ Perm(elord[1], UsedE(g))
                            /\ NonDecreasing(elord[1], LAMBDA x : f[x])
Rename(a, h, nord, nlord, elord, mx) ==
    /\ SetSt(h, [RenameG(st[a], nord, nlord, elord) EXCEPT !.mx = mx])
    /\ rep' = None /\ OnlyGraphs

\* random generators: every admissible outcome
CompleteKeys(dir, n) == {k \in (0..(n - 1)) \X (0..(n - 1)) : IF dir THEN k[1] # k[2] ELSE k[1] < k[2]}
IsGenerated(kind, dir, n, m, nl, el, r) ==
    /\ Fresh(r) /\ r.dir = dir /\ MaxIsMax(r)
    /\ Nodes(r) = 0..(n - 1)
    /\ \A k \in Edges(r) : /\ k[1] \in 0..(n - 1) /\ k[2] \in 0..(n - 1)
                           /\ IF dir THEN k[1] # k[2] ELSE k[1] < k[2]
    /\ CASE kind = "empty" -> Edges(r) = {}
         [] kind = "complete" -> Edges(r) = CompleteKeys(dir, n)
         [] kind = "gnm" -> EdgeCount(r) = m
         [] kind = "gnp0" -> Edges(r) = {}
         [] kind = "gnp1" -> Edges(r) = CompleteKeys(dir, n)
         [] kind = "gnp" -> TRUE
    /\ r.nm = InternAll(<<>>, nl) /\ r.em = InternAll(<<>>, el)
    /\ \A i \in Nodes(r) : IF nl = <<>> THEN r.n[i] = None
                           ELSE r.n[i] # None /\ r.n[i][1] < Len(r.nm)
    /\ \A k \in Edges(r) : IF el = <<>> THEN r.e[k] = None
                           ELSE r.e[k] # None /\ r.e[k][1] < Len(r.em)
GenRefused(kind, dir, n, m, bad) ==
    bad \/ (kind = "gnm" /\ m > (IF dir THEN n * (n - 1) ELSE (n * (n - 1)) \div 2))

\* What a random generator is able to produce: k draws of one small family.  Every member of
\* the family comes out (k is chosen so large that missing one has no practical chance), each
\* pair about as often as the family has it, and every offered label on every element.
IsFamily(kind, dir, n, m, p, k, nl, el, sizes, outs, freq, ln, le) ==
    LET keys == CompleteKeys(dir, n)
        count == Cardinality(keys)
        members == IF kind = "gnm" THEN {x \in SUBSET keys : Cardinality(x) = m} ELSE SUBSET keys
        share(c) == IF kind = "gnm" THEN <<c * count, k * m, k * count>> ELSE <<c * 100, k * p, k * 100>>
    IN /\ Range(sizes) = {n}
       /\ {Range(outs[i]) : i \in DOMAIN outs} = members
       /\ \A i \in DOMAIN outs : Distinct(outs[i])
       /\ {<<freq[i][1], freq[i][2]>> : i \in DOMAIN freq} = (IF members = {{}} THEN {} ELSE keys)
       /\ \A i \in DOMAIN freq : LET s == share(freq[i][3])
                                    d == IF s[1] > s[2] THEN s[1] - s[2] ELSE s[2] - s[1]
                                IN d * 10 <= s[3]
       /\ Range(ln) = {<<i, l>> : i \in 0..(n - 1), l \in Range(nl)}
       /\ Range(le) = {<<e, l>> : e \in keys, l \in Range(el)}

\* connected subgraphs: rs is the sequence of result graphs
IsSubgraphs(g, rs) ==
    LET cs == Comps(Nodes(g), Edges(g))
    IN /\ Len(rs) = Cardinality(cs)
       /\ {Nodes(rs[i]) : i \in DOMAIN rs} = cs
       /\ \A i \in DOMAIN rs :
            LET r == rs[i]
                K == {k \in Edges(g) : k[1] \in Nodes(r)}
            IN /\ Fresh(r) /\ r.dir = g.dir /\ MaxFrom(g, r)
               /\ Edges(r) = K
               /\ \A x \in Nodes(r) : NLab(r, x) = NLab(g, x)
               /\ \A k \in K : LabelAt(r.em, r.e[k]) = LabelAt(g.em, g.e[k])

\* each subgraph has one node that stands for it (which one is not promised):
\* roots lists what stands for a subgraph, with the place of that subgraph
IsRoots(rs, roots) ==
    /\ Len(roots) = Len(rs)
    /\ {roots[j][2] + 1 : j \in DOMAIN roots} = DOMAIN rs
    /\ \A j \in DOMAIN roots : roots[j][1] \in Nodes(rs[roots[j][2] + 1])

--------------------------------------------------------------------------
(* Files.                                                                  *)
SetFs(p, c) == fs' = Put(fs, p, c) /\ rep' = TRUE /\ UNCHANGED <<st, it, cc, tb>>
Dump(a, p) == SetFs(p, [k |-> "dump", v |-> [st[a] EXCEPT !.im = "mmap"]])
\* a memory-mapped graph without its auxiliary file knows no label texts
DropAux(p) == fs[p].k = "dump" /\ SetFs(p, [k |-> "dump", v |-> [fs[p].v EXCEPT !.nm = <<>>, !.em = <<>>]])
Load(p, h) == fs[p].k = "dump" /\ SetSt(h, fs[p].v) /\ rep' = None /\ OnlyGraphs
Export(a, p) == SetFs(p, [k |-> "graph", v |-> st[a]])
ExportTb(a, p) == SetFs(p, [k |-> "table", v |-> tb[a]])
\* the file loses its tail (crash, full disk, partial copy)
Truncate(p, len, total) == SetFs(p, IF len = total THEN fs[p] ELSE [k |-> "damaged", v |-> <<>>])
Import(p, h) ==
    IF fs[p].k = "graph" THEN SetSt(h, fs[p].v) /\ rep' = TRUE /\ OnlyGraphs
    ELSE rep' = FALSE /\ KeepSt /\ OnlyGraphs
ImportTb(p, h) ==
    IF fs[p].k = "table" THEN tb' = Put(tb, h, fs[p].v) /\ rep' = TRUE /\ UNCHANGED <<st, fs, it, cc>>
    ELSE rep' = FALSE /\ UNCHANGED <<st, fs, it, cc, tb>>

\* CSV written from a graph, read on top of graph b; r is the outcome
WriteCsv(a, pn, pe, sep) ==
    LET l == Labelled(st[a])
    IN /\ fs' = Put(Put(fs, pn, [k |-> "nodes", v |-> l, sep |-> sep]), pe, [k |-> "edges", v |-> l, sep |-> sep])
       /\ rep' = TRUE /\ UNCHANGED <<st, it, cc, tb>>
IsCsvRead(b, pn, pe, r) ==
    LET ln == IF IsNone(pn) THEN EmptyFn ELSE fs[pn[1]].v.n
        le == fs[pe].v.e
        ends == Cup({k[1] : k \in DOMAIN le}, {k[2] : k \in DOMAIN le})
        key(k) == Key(b.dir, k[1], k[2])
    IN /\ Fresh(r) /\ r.dir = b.dir
       /\ Nodes(r) = Cup(Cup(Nodes(b), DOMAIN ln), ends)
       /\ Edges(r) = Cup(Edges(b), {key(k) : k \in DOMAIN le})
       /\ \A i \in Nodes(r) : NLab(r, i) = IF i \in DOMAIN ln THEN ln[i]
                                           ELSE IF i \in Nodes(b) THEN NLab(b, i) ELSE None
       /\ \A k \in Edges(r) : LET src == {j \in {k, <<k[2], k[1]>>} : j \in DOMAIN le /\ key(j) = k}
                              IN IF src # {} THEN LabelAt(r.em, r.e[k]) \in {le[j] : j \in src}
                                 ELSE LabelAt(r.em, r.e[k]) = LabelAt(b.em, b.e[k])

(* CSV rows.  A field is <<kind, value>>: kind "id" (a number in the id    *)
(* type's range), "txt" (a non-empty label), "empty", "bad" (no id).       *)
RowOk(row, need, first, flex, headers) ==
    /\ Len(row) >= need
    /\ \A i \in 1..need : row[i][1] = "id"
    /\ flex \/ Len(row) = first
FieldLab(row, i) == IF Len(row) < i THEN None
                    ELSE IF row[i][1] = "empty" THEN None ELSE Some(row[i][2])
\* width every row must have when not flexible: that of the first record
NodeRows(rows, first, flex, headers) ==
    LET R == SelectSeq(rows, LAMBDA r : RowOk(r, 1, first, flex, headers))
    IN [i \in DOMAIN R |-> <<R[i][1][3], FieldLab(R[i], 2)>>]
EdgeRows(rows, first, flex, headers) ==
    LET R == SelectSeq(rows, LAMBDA r : RowOk(r, 2, first, flex, headers))
    IN [i \in DOMAIN R |-> <<R[i][1][3], R[i][2][3], FieldLab(R[i], 3)>>]
ApplyRows(g, ns, es) ==
    FoldL(LAMBDA x, r : AddEdgeG(x, r[1], r[2], r[3]),
          FoldL(LAMBDA x, r : AddNodeG(x, r[1], r[2]), g, ns), es)
ReadRows(h, ns, es) ==
    Mutable(h) /\ SetSt(h, ApplyRows(st[h], ns, es)) /\ rep' = None /\ OnlyGraphs

--------------------------------------------------------------------------
(* Traversals.  vis: nodes visited so far, in order; pre: nodes that count *)
(* as visited before the traversal began; pend: explicitly given pending   *)
(* nodes (bottom to top).                                                  *)
SetIt(t, x) == it' = Put(it, t, x) /\ rep' = None /\ UNCHANGED <<st, fs, cc, tb>>
StartTraversal(t, kind, a, pre, pend) ==
    LET g == st[a]
    IN SetIt(t, [k |-> kind, V |-> Nodes(g), adj |-> Paired(Nodes(g), OutPairs(g)),
                 vis |-> <<>>, pre |-> pre, pend |-> pend])
CloneTraversal(t, u) == SetIt(u, it[t])
ResetTraversal(t) == SetIt(t, [it[t] EXCEPT !.vis = <<>>, !.pre = {}, !.pend = <<>>])
Unvisited(x) == x.V \ (Range(x.vis) \cup x.pre)
\* the nodes that may come next: neighbours of the first (BFS) or the last (DFS) visited node
\* that still has unvisited neighbours; pending nodes after that, the last one first
NextSet(x) ==
    LET U == Unvisited(x)
        n == Len(x.vis)
        at(j) == x.vis[IF x.k = "bfs" THEN j ELSE n + 1 - j]
        P == {i \in DOMAIN x.pend : x.pend[i] \in U}
    IN IF U = {} THEN {}
       ELSE IF \E j \in 1..n : x.adj[at(j)] \cap U # {}
       THEN LET i == CHOOSE j \in 1..n : /\ x.adj[at(j)] \cap U # {}
                                        /\ \A l \in 1..(j - 1) : x.adj[at(l)] \cap U = {}
            IN x.adj[at(i)] \cap U
       ELSE IF P # {} THEN {x.pend[CHOOSE i \in P : \A j \in P : j <= i]}
       ELSE U
Visit(x, v) == [x EXCEPT !.vis = Append(@, v)]
\* one call: r is the reply (an option)
IsStep(x, r) == IF IsNone(r) THEN NextSet(x) = {} ELSE r[1] \in NextSet(x)
StepT(t, r) ==
    /\ IsStep(it[t], r)
    /\ SetIt(t, IF IsNone(r) THEN it[t] ELSE Visit(it[t], r[1]))
RECURSIVE IsRun(_, _)
IsRun(x, s) == IF s = <<>> THEN NextSet(x) = {}
               ELSE Head(s) \in NextSet(x) /\ IsRun(Visit(x, Head(s)), Tail(s))

\* A complete run from a fresh start, judged in one piece.  P holds <<u, v>> for every
\* v that u leads to, s the run.  With every node named by its position in s, node j has
\* nothing left to find from the greatest position it leads to on.  Traversal.tla shows
\* that this is IsRun.
RECURSIVE Unstack(_, _, _)
Unstack(stk, last, i) == IF stk = <<>> THEN stk
                         ELSE IF last[stk[1]] >= i THEN stk ELSE Unstack(stk[2], last, i)
IsWhole(kind, V, P, pend, s) ==
    LET n == Len(s)
        pos == Index(s)
        S == {<<pos[k[1]], pos[k[2]]>> : k \in P}
        Q == SortedPairs(S)
        lo == [i \in 1..(n + 1) |-> AtLeast(Q, i, 1, Len(Q))]
        last == [i \in 1..n |-> IF lo[i + 1] = lo[i] THEN 0 ELSE Q[lo[i + 1] - 1][2]]
        \* the first that has something left to find, once i - 1 nodes are found
        Front(a, i) == LET RECURSIVE F(_)
                           F(p) == IF p = i THEN p ELSE IF last[p] >= i THEN p ELSE F(p + 1)
                       IN F(a)
        \* a: <<fine so far, front>>, or <<fine so far, stack of those before i>>
        B(a, i) == IF ~a[1] THEN a
                   ELSE LET p == Front(a[2], i)
                        IN <<p = i \/ <<p, i>> \in S, p>>
        D(a, i) == IF ~a[1] THEN a
                   ELSE LET t == Unstack(a[2], last, i)
                        IN <<t = <<>> \/ <<t[1], i>> \in S, <<i, t>>>>
    IN /\ n = Cardinality(V) /\ Range(s) = V
       /\ V # {} /\ pend # <<>> => s[1] = pend[1]
       /\ Cardinality(S) = Cardinality(P)
       /\ IF kind = "bfs" THEN FoldL(B, <<TRUE, 1>>, [i \in 1..n |-> i])[1]
          ELSE FoldL(D, <<TRUE, <<>>>>, [i \in 1..n |-> i])[1]

--------------------------------------------------------------------------
(* Connected components: cls maps every known node to its class.           *)
Know(c, x) == IF x \in DOMAIN c THEN c ELSE Put(c, x, x)
Join(c, k) == LET d == Know(Know(c, k[1]), k[2])
              IN [x \in DOMAIN d |-> IF d[x] = d[k[1]] THEN d[k[2]] ELSE d[x]]
JoinGraph(c, g) == Classes(Cup(DOMAIN c, Nodes(g)), Cup(Edges(g), {<<x, c[x]>> : x \in DOMAIN c}))
SetCc(c, x) == cc' = Put(cc, c, x) /\ rep' = None /\ UNCHANGED <<st, fs, it, tb>>
NewCc(c) == SetCc(c, EmptyFn)
DetectCc(c, a) == SetCc(c, JoinGraph(cc[c], st[a]))
EdgeCc(c, s, t) == SetCc(c, Join(cc[c], <<s, t>>))
CloneCc(c, d) == SetCc(d, cc[c])
Members(x, v) == {w \in DOMAIN x : x[w] = x[v]}

--------------------------------------------------------------------------
(* Label tables: [k |-> "set"|"vec", s |-> Seq(item)].                     *)
SetTb(h, k, s) == tb' = Put(tb, h, [k |-> k, s |-> s]) /\ UNCHANGED <<st, fs, it, cc>>
NewTb(h, k, items) == SetTb(h, k, InternAll(<<>>, items)) /\ rep' = None
AddTb(h, x) == LET m == Intern(tb[h].s, x) IN SetTb(h, tb[h].k, m) /\ rep' = IdOf(m, x)
PopTb(h) == LET s == tb[h].s
            IN IF s = <<>> THEN SetTb(h, tb[h].k, s) /\ rep' = None
               ELSE SetTb(h, tb[h].k, SubSeq(s, 1, Len(s) - 1)) /\ rep' = Some(s[Len(s)])
ClearTb(h) == SetTb(h, tb[h].k, <<>>) /\ rep' = None
ConvertTb(a, h, k) == SetTb(h, k, tb[a].s) /\ rep' = None
EqualTb(a, b) == /\ rep' = (IF tb[a].k = "set" THEN Range(tb[a].s) = Range(tb[b].s) ELSE tb[a].s = tb[b].s)
                 /\ UNCHANGED <<st, fs, it, cc, tb>>
Look == rep' = None /\ UNCHANGED <<st, fs, it, cc, tb>>
=============================================================================
