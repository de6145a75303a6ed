-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation: every line of the trace recorded from the real code   *)
(* must be a step of RustGraph.  A logged outcome that the specification   *)
(* does not allow puts the violated clause in `fail`; clauses are tagged   *)
(* with the properties they belong to, and only those of the property      *)
(* under check (MINE) are evaluated.                                       *)
(***************************************************************************)
EXTENDS RustGraph, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
\* "ALL" is asked only by bin/vacuity.py
Mine == IF IOEnv.PROP = "ALL" THEN {"C0" \o ToString(i) : i \in 1..9} \cup {"C" \o ToString(i) : i \in 10..28}
        ELSE {IOEnv.PROP}

VARIABLES l, fail
tvars == <<vars, l, fail>>

Has(e, f) == f \in DOMAIN e
Own(e) == IF Has(e, "own") THEN Range(e.own) ELSE {}
C(ps, name, cond) == IF ps \cap Mine = {} THEN {} ELSE IF cond THEN {} ELSE {name}
SetEq(s, S) == Len(s) = Cardinality(S) /\ Range(s) = S

\* graph logged in full: nd <<id, lid>>, ed <<s,t,lid>>, nm, em, mx
GraphOf(dir, x) ==
    LET ni == Index([j \in DOMAIN x.nd |-> x.nd[j][1]])
        ei == Index([j \in DOMAIN x.ed |-> Key(dir, x.ed[j][1], x.ed[j][2])])
    IN [dir |-> dir,
        n |-> [i \in DOMAIN ni |-> x.nd[ni[i]][2]],
        e |-> [k \in DOMAIN ei |-> x.ed[ei[k]][3]],
        nm |-> x.nm, em |-> x.em, mx |-> x.mx, im |-> "map"]
\* the log itself must not list anything twice
CleanLog(dir, x) == /\ Cardinality({x.nd[j][1] : j \in DOMAIN x.nd}) = Len(x.nd)
                    /\ Cardinality({Key(dir, x.ed[j][1], x.ed[j][2]) : j \in DOMAIN x.ed}) = Len(x.ed)

--------------------------------------------------------------------------
(* The full projection of a graph.                                         *)
S(e, name, ps, cond) == C(ps \cup Own(e), name, name \notin Range(e.pn) /\ cond)

NQ(g, q) == \* id, has, got, gid, glid, lab
    /\ q[2] = HasN(g, q[1])
    /\ q[3] = HasN(g, q[1])
    /\ q[4] = (IF HasN(g, q[1]) THEN Some(q[1]) ELSE None)
    /\ q[5] = NLid(g, q[1])
    /\ q[6] = NLab(g, q[1])
EQ(g, q) == \* s, t, has, got, gs_gt, glid, lab
    /\ q[3] = HasE(g, q[1], q[2])
    /\ q[4] = HasE(g, q[1], q[2])
    /\ q[5] = (IF HasE(g, q[1], q[2]) THEN <<q[1], q[2]>> ELSE <<>>)
    /\ q[6] = ELid(g, q[1], q[2])
    /\ q[7] = ELab(g, q[1], q[2])
AdjList(s, X) == Increasing(s) /\ Len(s) = Cardinality(X) /\ Range(s) = X
AJ(g, a) == \* id, deg, nb, nbi, [indeg, inb, inbi]
    LET X == Out(g, a[1])
    IN /\ a[2] = Cardinality(X) /\ AdjList(a[3], X) /\ a[4] = a[3]
       /\ IF g.dir THEN LET Y == In(g, a[1])
                        IN Len(a[5]) = 3 /\ a[5][1] = Cardinality(Y) /\ AdjList(a[5][2], Y) /\ a[5][3] = a[5][2]
          ELSE a[5] = <<>>
EdgeKeysOnce(g, s) == \* s: sequence of <<s,t,...>>
    /\ Len(s) = EdgeCount(g)
    /\ {Key(g.dir, s[j][1], s[j][2]) : j \in DOMAIN s} = Edges(g)

ObsFail(e, g) ==
    UNION {
      S(e, "dir", {"C01"}, e.d = g.dir),
      S(e, "impl", {"C04"}, e.im = g.im),
      IF Has(e, "nc") THEN S(e, "nc", {"C02"}, e.nc = NodeCount(g)) ELSE {},
      IF Has(e, "ec") THEN S(e, "ec", {"C02"}, e.ec = EdgeCount(g)) ELSE {},
      IF Has(e, "mx") THEN S(e, "mx", {"C07"}, e.mx = g.mx) ELSE {},
      IF Has(e, "ni") THEN S(e, "ni", {"C01", "C04"}, SetEq(e.ni, Nodes(g))) ELSE {},
      IF Has(e, "nd") THEN S(e, "nd", {"C04"}, SetEq(e.nd, {<<i, g.n[i]>> : i \in Nodes(g)})) ELSE {},
      IF Has(e, "ei") THEN S(e, "ei", {"C01", "C04"}, EdgeKeysOnce(g, e.ei)) ELSE {},
      IF Has(e, "ed") THEN S(e, "ed", {"C04"}, /\ EdgeKeysOnce(g, e.ed)
                          /\ \A j \in DOMAIN e.ed : ELid(g, e.ed[j][1], e.ed[j][2]) = e.ed[j][3]) ELSE {},
      IF Has(e, "nq") THEN S(e, "nq", {"C01", "C04", "C05", "C26"}, \A j \in DOMAIN e.nq : NQ(g, e.nq[j])) ELSE {},
      IF Has(e, "eq") THEN S(e, "eq", {"C01", "C03", "C04", "C05", "C26"}, \A j \in DOMAIN e.eq : EQ(g, e.eq[j])) ELSE {},
      IF Has(e, "aj") THEN S(e, "aj", {"C03"}, /\ {e.aj[j][1] : j \in DOMAIN e.aj} \subseteq Nodes(g)
                                               /\ \A j \in DOMAIN e.aj : AJ(g, e.aj[j])) ELSE {},
      \* absent ids: every adjacency query refused
      IF Has(e, "ab") THEN S(e, "ab", {"C26"}, \A j \in DOMAIN e.ab : ~HasN(g, e.ab[j][1]) => e.ab[j][2]) ELSE {},
      \* present ids: none refused
      IF Has(e, "ab") THEN S(e, "refused", {"C03"}, \A j \in DOMAIN e.ab : HasN(g, e.ab[j][1]) => ~e.ab[j][2]) ELSE {},
      \* "not there" has no identifier to tell
      IF Has(e, "nr") THEN S(e, "nr", {"C26"}, \A j \in DOMAIN e.nr :
            LET x == e.nr[j][1]
            IN e.nr[j][2] = (IF Len(x) = 1 THEN ~HasN(g, x[1]) ELSE ~HasE(g, x[1], x[2]))) ELSE {},
      \* iterators: lengths and size hints
      IF Has(e, "cnt") THEN S(e, "cnt", {"C04"}, e.cnt = <<NodeCount(g), NodeCount(g), EdgeCount(g), EdgeCount(g), TRUE>>) ELSE {},
      IF Has(e, "nm") THEN S(e, "nm", {"C06"}, e.nm = g.nm /\ e.em = g.em) ELSE {},
      IF Has(e, "lc") THEN
         S(e, "lc", {"C05", "C06"}, /\ e.lc[1] = Len(g.nm) /\ e.lc[2] = Len(g.em)
                                    /\ e.lc[3] = (Len(g.nm) > 0) /\ e.lc[4] = (Len(g.em) > 0)
                                    /\ e.lc[5] = g.nm /\ e.lc[6] = g.em) ELSE {},
      IF Has(e, "ct") THEN
         S(e, "ct", {"C05"}, /\ SetEq(e.ct[1], NLabCount(g)) /\ SetEq(e.ct[2], ELabCount(g))
                             /\ SetEq(e.ct[3], NLidCount(g)) /\ SetEq(e.ct[4], ELidCount(g))) ELSE {},
      IF Has(e, "fe") THEN
         S(e, "fe", {"C11"}, \A j \in DOMAIN e.fe : e.fe[j][4] = (e.fe[j][3] # <<>>) /\ (e.fe[j][3] # <<>>) = HasE(g, e.fe[j][1], e.fe[j][2])) ELSE {}
    }

\* a static graph made from ids with gaps: only edges, their labels and adjacency
GapFail(e, g) ==
    UNION {
      S(e, "ec", {"C02"}, e.ec = EdgeCount(g)),
      S(e, "ei", {"C04"}, EdgeKeysOnce(g, e.ei)),
      S(e, "ed", {"C04"}, /\ EdgeKeysOnce(g, e.ed)
                          /\ \A j \in DOMAIN e.ed : ELid(g, e.ed[j][1], e.ed[j][2]) = e.ed[j][3]),
      IF Has(e, "eq") THEN S(e, "eq", {"C03", "C05"}, \A j \in DOMAIN e.eq : EQ(g, e.eq[j])) ELSE {},
      IF Has(e, "aj") THEN S(e, "aj", {"C03"}, \A j \in DOMAIN e.aj : AJ(g, e.aj[j])) ELSE {},
      S(e, "nm", {"C06"}, e.nm = g.nm /\ e.em = g.em)
    }

--------------------------------------------------------------------------
Note(x) == fail' = x
Ok == fail' = {}
\* reply r of the code against the reply of the specification (rep')
Rep(e, ps, name) == fail' = C(ps \cup Own(e), name, e.ret = rep')

RemovedOk(ret, r) ==
    IF IsNone(r) THEN ret = <<>>
    ELSE /\ Len(ret) = 4 /\ ret[1] = r[1].id /\ ret[2] = r[1].lid
         /\ SetEq(ret[3], r[1].nb) /\ SetEq(ret[4], r[1].ib)

\* An outcome r logged for handle h: it is adopted, and judged by `good`.
Outcome(e, ps, name, h, r, good) ==
    Adopt(h, r) /\ fail' = C(ps \cup Own(e), name, good)

\* connected components: everything that can be asked
CcQueries(e, x) ==
    /\ e.count = Cardinality({x[v] : v \in DOMAIN x})
    /\ \A j \in DOMAIN e.q : LET a == e.q[j][1] b == e.q[j][2]
                              IN e.q[j][3] = (a \in DOMAIN x /\ b \in DOMAIN x /\ x[a] = x[b])
    /\ \A j \in DOMAIN e.m : LET v == e.m[j][1]
                              IN IF v \in DOMAIN x
                                 THEN e.m[j][2] # <<>> /\ SetEq(e.m[j][2][1], Members(x, v))
                                 ELSE e.m[j][2] = <<>>
    \* root and parent lie in the component; roots are equal exactly within a component
    /\ \A j \in DOMAIN e.r : LET v == e.r[j][1]
                              IN IF v \in DOMAIN x
                                 THEN /\ e.r[j][2] # <<>> /\ e.r[j][2][1] \in Members(x, v)
                                      /\ e.r[j][3] # <<>> /\ e.r[j][3][1] \in Members(x, v)
                                 ELSE e.r[j][2] = <<>> /\ e.r[j][3] = <<>>
    /\ \A i, j \in DOMAIN e.r : (e.r[i][1] \in DOMAIN x /\ e.r[j][1] \in DOMAIN x) =>
            ((e.r[i][2] = e.r[j][2]) = (x[e.r[i][1]] = x[e.r[j][1]]))
    /\ Range(e.known) = DOMAIN x /\ Len(e.known) = Cardinality(DOMAIN x)

TbObs(e, t) ==
    /\ e.len = Len(t.s) /\ e.empty = (t.s = <<>>)
    /\ e.items = t.s /\ e.vec = t.s
    /\ Len(e.get) = Len(t.s) + 2
    /\ \A i \in DOMAIN e.get : e.get[i] = (IF i <= Len(t.s) THEN Some(t.s[i]) ELSE None)
    /\ \A j \in DOMAIN e.find : LET x == e.find[j][1]
                                 IN /\ e.find[j][2] = (IF HasItem(t.s, x) THEN Some(IdOf(t.s, x)) ELSE None)
                                    /\ e.find[j][3] = HasItem(t.s, x)

\* typed memory map: data and the slices asked for; a slice is <<kind, bound, option(result)>>
TmmOk(e) ==
    /\ e.len = Len(e.data) /\ e.full = e.data /\ e.bytes = Len(e.data) * e.width
    /\ \A j \in DOMAIN e.sl :
         LET k == e.sl[j][1] b == e.sl[j][2] r == e.sl[j][3]
         IN IF b > Len(e.data) THEN r = None
            ELSE r = Some(IF k = "from" THEN SubSeq(e.data, b + 1, Len(e.data)) ELSE SubSeq(e.data, 1, b))

--------------------------------------------------------------------------
Ldbc == INSTANCE Ldbc
Recs == INSTANCE NodeRec

\* properties an operation that must not panic belongs to
PanicOwner(op) ==
    CASE op \in {"add_node", "add_edge", "remove_node", "remove_edge", "upd_node", "upd_edge", "new", "bulk"} -> {"C01", "C26"}
      [] op \in {"refine", "shrink"} -> {"C02"}
      [] op \in {"add_nl", "add_el", "tb_new", "tb_add", "tb_pop", "tb_clear", "tb_conv", "tb_obs"} -> {"C06"}
      [] op \in {"set_nlid", "set_elid", "nodes_mut", "edges_mut"} -> {"C25"}
      [] op \in {"cmp", "tb_eq"} -> {"C08"}
      [] op = "clone" -> {"C09"}
      [] op \in {"static", "gap"} -> {"C10"}
      [] op \in {"csr", "strip"} -> {"C11"}
      [] op \in {"dump", "dropaux", "load"} -> {"C12"}
      [] op \in {"export", "import", "trunc"} -> {"C13"}
      [] op \in {"csvw", "csvr"} -> {"C14"}
      [] op \in {"csvrows"} -> {"C15"}
      [] op = "wfault" -> {"C16"}
      [] op \in {"cc_new", "cc_run", "cc_edge", "cc_q", "cc_reset", "cc_clone"} -> {"C19"}
      [] op = "csub" -> {"C20"}
      [] op = "union" -> {"C21"}
      [] op = "minus" -> {"C22"}
      [] op = "reorder" -> {"C23"}
      [] op \in {"gen", "pairs", "support"} -> {"C24"}
      [] op = "record" -> {"C03", "C25"}
      [] op = "ldbc" -> {"C27"}
      [] op = "tmm" -> {"C28"}
      [] OTHER -> Mine
TravOwner(k) == IF k = "bfs" THEN {"C17"} ELSE {"C18"}

Step(e) ==
  CASE e.op = "reset" -> st' = EmptyFn /\ fs' = EmptyFn /\ it' = EmptyFn /\ cc' = EmptyFn /\ tb' = EmptyFn /\ rep' = None /\ Ok
    \* the code panicked, hung or died where it had to answer
    [] e.op \in {"hang", "crash"} -> UNCHANGED vars /\ Note({e.op})
    [] Has(e, "pan") /\ e.op # "gen" /\ e.op # "wfault" ->
         UNCHANGED vars /\ fail' = C(PanicOwner(e.op) \cup Own(e), "panic", FALSE)
    [] e.op = "new" -> New(e.h, e.dir, e.nm, e.em, e.edges) /\ Ok
    [] e.op = "bulk" -> Bulk(e.h, e.dir, e.k, e.step, e.nm, e.em, e.edges) /\ Ok
    [] e.op = "add_node" -> AddNode(e.h, e.id, e.lab) /\ Rep(e, {"C01"}, "ret")
    [] e.op = "add_edge" -> AddEdge(e.h, e.s, e.t, e.lab) /\ Rep(e, {"C01"}, "ret")
    [] e.op = "remove_node" -> RemoveNode(e.h, e.id)
                               /\ fail' = C({"C01"} \cup Own(e), "ret", RemovedOk(e.ret, rep'))
    [] e.op = "remove_edge" -> RemoveEdge(e.h, e.s, e.t)
                               /\ fail' = C({"C01"} \cup Own(e), "ret",
                                            IF rep' = None THEN e.ret = <<>> ELSE e.ret = rep'[1])
    [] e.op = "upd_node" -> UpdateNode(e.h, e.id, e.lab) /\ Rep(e, {"C01"}, "ret")
    [] e.op = "upd_edge" -> UpdateEdge(e.h, e.s, e.t, e.lab) /\ Rep(e, {"C01"}, "ret")
    [] e.op = "add_nl" -> AddNodeLabel(e.h, e.lab) /\ Rep(e, {"C06"}, "ret")
    [] e.op = "add_el" -> AddEdgeLabel(e.h, e.lab) /\ Rep(e, {"C06"}, "ret")
    [] e.op \in {"refine", "shrink"} -> Housekeeping(e.h) /\ Ok
    [] e.op = "set_nlid" -> SetNodeLid(e.h, e.id, e.lid)
                            /\ fail' = C({"C25"} \cup Own(e), "handle", IF rep' = None THEN e.ret = <<>> ELSE e.ret = rep'[1])
    [] e.op = "set_elid" -> SetEdgeLid(e.h, e.s, e.t, e.lid)
                            /\ fail' = C({"C25"} \cup Own(e), "handle", IF rep' = None THEN e.ret = <<>> ELSE e.ret = rep'[1])
    [] e.op = "nodes_mut" -> NodesMut(e.h, e.w) /\ fail' = C({"C25"} \cup Own(e), "view", SetEq(e.ret, rep'))
    [] e.op = "edges_mut" ->
         /\ EdgesMut(e.h, e.w)
         /\ fail' = C({"C25"} \cup Own(e), "view",
                      /\ EdgeKeysOnce(st[e.h], e.ret)
                      /\ \A j \in DOMAIN e.ret : ELid(st[e.h], e.ret[j][1], e.ret[j][2]) = e.ret[j][3])
    [] e.op = "forget" -> Forget(e.h) /\ Ok
    [] e.op = "obs" -> Look /\ fail' = (IF st[e.h].im = "gap" THEN GapFail(e, st[e.h]) ELSE ObsFail(e, st[e.h]))
    [] e.op = "cmp" -> /\ Compare(e.a, e.b)
                       /\ fail' = UNION {C({"C08"} \cup Own(e), "eq", \A j \in DOMAIN e.eq : e.eq[j] = rep'),
                                         C({"C08"} \cup Own(e), "hash", rep' => \A j \in DOMAIN e.hash : e.hash[j])}
    [] e.op = "clone" -> IF e.kind = "typed" THEN CloneTyped(e.a, e.h) /\ Ok
                         ELSE Outcome(e, {"C09"}, "clone", e.h, GraphOf(e.d, e.g),
                                      CleanLog(e.d, e.g) /\ IsBoxClone(st[e.a], GraphOf(e.d, e.g)))
    [] e.op = "static" -> ToStatic(e.a, e.h) /\ Ok
    [] e.op = "gap" -> ToStaticGap(e.a, e.h) /\ Ok
    [] e.op = "csr" -> FromVectors(e.h, e.dir, e.off, e.edg, e.el, e.nl, e.sentinel, e.nm, e.em) /\ Ok
    [] e.op = "vectors" -> \* the vectors a conversion produced
         LET g == st[e.h]
         IN Look /\ fail' = C({"C10"} \cup Own(e), "vectors",
                      /\ IsEnc(e.off, e.edg, NodeCount(g), OutPairs(g))
                      \* a label vector may be left out when nothing is labelled
                      /\ \/ IsEncLab(g, e.off, e.edg, e.el, e.sentinel)
                         \/ e.el = <<>> /\ UsedE(g) = {}
                      /\ \/ e.nl = Some(EncNl(g, e.sentinel))
                         \/ e.nl = None /\ UsedN(g) = {}
                      /\ g.dir => IsEnc(e.ioff, e.iedg, NodeCount(g), InPairs(g))
                      /\ e.same)
    [] e.op = "pos" -> \* edge positions in given vectors
         Look /\ fail' = C({"C11"} \cup Own(e), "pos", \A j \in DOMAIN e.q : e.q[j][3] = Position(e.off, e.edg, e.q[j][1], e.q[j][2]))
    [] e.op = "strip" -> Strip(e.h, e.what) /\ Ok
    [] e.op = "dump" -> IF e.ret THEN Dump(e.a, e.p) /\ Ok
                        ELSE UNCHANGED vars /\ fail' = C({"C12"} \cup Own(e), "dump", FALSE)
    [] e.op = "dropaux" -> DropAux(e.p) /\ Ok
    [] e.op = "load" -> Load(e.p, e.h) /\ Ok
    [] e.op = "export" -> IF e.ret THEN (IF Has(e, "tb") THEN ExportTb(e.a, e.p) ELSE Export(e.a, e.p)) /\ Ok
                          ELSE UNCHANGED vars /\ fail' = C({"C13"} \cup Own(e), "export", FALSE)
    [] e.op = "trunc" -> Truncate(e.p, e.len, e.total) /\ Ok
    [] e.op = "import" -> /\ (IF Has(e, "tb") THEN ImportTb(e.p, e.h) ELSE Import(e.p, e.h))
                          /\ Rep(e, {"C13"}, "import")
    \* many truncations of one file at once: every proper prefix must be refused
    [] e.op = "truncs" -> Look /\ fail' = C({"C13"} \cup Own(e), "prefix", \A j \in DOMAIN e.acc : e.acc[j] = e.total)
    [] e.op = "csvw" -> IF e.ret THEN WriteCsv(e.a, e.pn, e.pe, e.sep) /\ Ok
                        ELSE UNCHANGED vars /\ fail' = C({"C14"} \cup Own(e), "write", FALSE)
    [] e.op = "csvr" -> Outcome(e, {"C14"}, "read", e.h, GraphOf(st[e.h].dir, e.g),
                                /\ e.ret
                                /\ CleanLog(st[e.h].dir, e.g)
                                /\ IsCsvRead(st[e.h], e.pn, e.pe, GraphOf(st[e.h].dir, e.g))
                                /\ MaxOnto(st[e.h], GraphOf(st[e.h].dir, e.g)))
    [] e.op = "csvrows" ->
         LET ns == IF e.hasn THEN NodeRows(e.nrows, e.nfirst, e.flex, e.headers) ELSE <<>>
             es == EdgeRows(e.erows, e.efirst, e.flex, e.headers)
         IN /\ ReadRows(e.h, ns, es)
            /\ fail' = UNION {C({"C15"} \cup Own(e), "ret", e.ret),
                              C({"C15"} \cup Own(e), "node_iter", e.niter = ns),
                              C({"C15"} \cup Own(e), "edge_iter", e.eiter = es)}
    [] e.op = "wfault" ->
         \* need: bytes to be written to the faulty file, cap: bytes it can take
         Look /\ fail' = UNION {C({"C16"} \cup Own(e), "panic", ~Has(e, "pan")),
                                C({"C16"} \cup Own(e), "lost", e.ret => (e.need <= e.cap /\ e.whole)),
                                C({"C16"} \cup Own(e), "spurious", (e.need <= e.cap) => e.ret)}
    \* what must be refused, and only that
    [] e.op = "ask_sep" -> \* a separator named comma, space or tab, or any one byte
         Look /\ fail' = C({e.who} \cup Own(e), "separator",
                          e.refused = (e.sep \notin {"comma", "space", "tab"} /\ e.len # 1))
    [] e.op = "ask_static" -> \* a directed static graph needs the incoming edges
         Look /\ fail' = C({"C11"} \cup Own(e), "refusal", e.refused = (e.dir /\ ~e.ins))
    [] e.op = "ask_vec" -> \* one label per edge, or none at all
         Look /\ fail' = C({"C11"} \cup Own(e), "refusal", e.refused = (e.labels # <<>> /\ e.labels[1] # e.edges))
    [] e.op = "t_new" -> StartTraversal(e.t, e.k, e.a, {}, e.start)
                         /\ Ok
    [] e.op = "t_parts" -> StartTraversal(e.t, e.k, e.a, Range(e.pre), e.pend) /\ Ok
    [] e.op = "t_clone" -> CloneTraversal(e.t, e.u) /\ Ok
    [] e.op = "t_reset" -> ResetTraversal(e.t) /\ Ok
    [] e.op = "t_next" -> SetIt(e.t, IF IsNone(e.ret) THEN it[e.t] ELSE Visit(it[e.t], e.ret[1]))
                          /\ fail' = C(TravOwner(it[e.t].k) \cup Own(e), "order",
                                       (e.ret = <<>> \/ e.ret[1] \in it[e.t].V) /\ IsStep(it[e.t], e.ret))
    [] e.op = "t_run" -> Look /\ fail' = C(TravOwner(it[e.t].k) \cup Own(e), "order",
                                           /\ e.done /\ IsRun(it[e.t], e.seq)
                                           \* a clone goes on exactly as its original
                                           /\ Has(e, "twin") => e.twin = e.seq)
    [] e.op = "t_whole" -> \* a run of a large graph
         LET g == st[e.a]
         IN Look /\ fail' = C(TravOwner(e.k) \cup Own(e), "order",
                              e.done /\ IsWhole(e.k, Nodes(g), OutPairs(g), e.start, e.seq))
    [] e.op = "t_refused" -> Look /\ fail' = C(TravOwner(e.k) \cup Own(e), "start", e.ret)
    [] e.op = "cc_new" -> NewCc(e.c) /\ Ok
    [] e.op = "cc_run" -> DetectCc(e.c, e.a) /\ Ok
    [] e.op = "cc_edge" -> EdgeCc(e.c, e.s, e.t) /\ Ok
    [] e.op = "cc_clone" -> CloneCc(e.c, e.d) /\ Ok
    [] e.op = "cc_reset" -> NewCc(e.c) /\ Ok
    [] e.op = "cc_q" -> Look /\ fail' = C({"C19"} \cup Own(e), "cc", CcQueries(e, cc[e.c]))
    [] e.op = "csub" ->
         LET rs == [i \in DOMAIN e.gs |-> GraphOf(e.ds[i], e.gs[i])]
         IN /\ st' = FoldL(LAMBDA f, i : Put(f, e.hs[i], rs[i]), st, [i \in DOMAIN rs |-> i])
            /\ rep' = None /\ OnlyGraphs
            /\ fail' = C({"C20"} \cup Own(e), "subgraphs",
                         /\ \A i \in DOMAIN rs : CleanLog(e.ds[i], e.gs[i])
                         /\ IsSubgraphs(st[e.a], rs)
                         /\ Has(e, "roots") => IsRoots(rs, e.roots))
    [] e.op = "union" -> Outcome(e, {"C21"}, "union", e.h, GraphOf(e.d, e.g),
                                 /\ CleanLog(e.d, e.g) /\ Fresh(GraphOf(e.d, e.g)) /\ MaxIsMax(GraphOf(e.d, e.g))
                                 /\ IsUnion(st[e.a], st[e.b], GraphOf(e.d, e.g)))
    [] e.op = "minus" -> Outcome(e, {"C22"}, "minus", e.h, GraphOf(e.d, e.g),
                                 /\ CleanLog(e.d, e.g) /\ Fresh(GraphOf(e.d, e.g)) /\ MaxFrom(st[e.a], GraphOf(e.d, e.g))
                                 /\ IsMinus(st[e.a], st[e.b], GraphOf(e.d, e.g)))
    [] e.op = "reorder" -> \* through reorder_id: orders reported / read off the result
         LET g == st[e.a]
             good == /\ IsReorder(g, e.rn, e.rl, e.re, e.nord, e.nlord, e.elord)
                     /\ (e.mx = (IF Nodes(g) = {} THEN None ELSE Some(MaxOf(Nodes(RenameG(g, e.nord, <<>>, <<>>)))))
                         \/ (~e.rn /\ e.mx = g.mx))
                     /\ \A j \in DOMAIN e.back : e.back[j][2] = e.back[j][1] /\ e.back[j][3] = e.back[j][1]
         IN IF good THEN Rename(e.a, e.h, e.nord, e.nlord, e.elord, e.mx) /\ Ok
            ELSE UNCHANGED vars /\ fail' = C({"C23"} \cup Own(e), "reorder", FALSE)
    [] e.op = "rename" -> \* through reorder_id_with: given orders
         Rename(e.a, e.h, e.nord, e.nlord, e.elord, e.mx)
         /\ fail' = C({"C23"} \cup Own(e), "mx",
                      \/ e.mx = RenameG(st[e.a], e.nord, e.nlord, e.elord).mx
                      \/ IsNone(e.nord) /\ e.mx = st[e.a].mx)
    [] e.op = "record" -> Look /\ fail' = C({"C03", "C25"}, "record", Recs!RunRec(e.id, e.lid, e.xs))
    [] e.op = "pairs" -> Look /\ fail' = C({"C24"}, "pairs", /\ Range(e.pairs) = CompleteKeys(e.dir, e.n)
                                                            /\ Len(e.pairs) = Cardinality(CompleteKeys(e.dir, e.n)))
    [] e.op = "gen" ->
         IF Has(e, "pan") THEN Look /\ fail' = C({"C24"}, "refusal", GenRefused(e.kind, e.dir, e.n, e.m, e.bad))
         ELSE Outcome(e, {"C24"}, "generated", e.h, GraphOf(e.d, e.g),
                      /\ CleanLog(e.d, e.g)
                      /\ ~GenRefused(e.kind, e.dir, e.n, e.m, e.bad)
                      /\ e.d = e.dir
                      /\ IsGenerated(e.kind, e.dir, e.n, e.m, e.nl, e.el, GraphOf(e.d, e.g)))
    [] e.op = "support" ->
         Look /\ fail' = C({"C24"}, "family",
                          IsFamily(e.kind, e.dir, e.n, e.m, e.p, e.k, e.nl, e.el, e.sizes, e.outs, e.freq, e.ln, e.le) = TRUE)
    [] e.op = "ldbc" ->
         IF e.ret THEN Outcome(e, {"C27"}, "ldbc", e.h, GraphOf(e.d, e.g),
                               /\ CleanLog(e.d, e.g)
                               /\ LET r == GraphOf(e.d, e.g)
                                      x == Ldbc!Import(e.d, e.files)
                                  \* the numbering of entities is not promised
                                  IN x = r \/ Isomorphic(x, r))
         ELSE Look /\ fail' = C({"C27"}, "ldbc", FALSE)
    [] e.op = "tb_new" -> NewTb(e.h, e.k, e.items) /\ Ok
    [] e.op = "tb_add" -> AddTb(e.h, e.x) /\ Rep(e, {"C06"}, "index")
    [] e.op = "tb_pop" -> PopTb(e.h) /\ Rep(e, {"C06"}, "pop")
    [] e.op = "tb_clear" -> ClearTb(e.h) /\ Ok
    [] e.op = "tb_conv" -> ConvertTb(e.a, e.h, e.k) /\ Ok
    [] e.op = "tb_eq" -> EqualTb(e.a, e.b)
                         /\ fail' = UNION {C({"C08"} \cup Own(e), "eq", \A j \in DOMAIN e.eq : e.eq[j] = rep'),
                                           C({"C08"} \cup Own(e), "hash", rep' => e.hash)}
    [] e.op = "tb_obs" -> Look /\ fail' = C({"C06"} \cup Own(e), "table", TbObs(e, tb[e.h]))
    [] e.op = "tmm" -> Look /\ fail' = C({"C28"} \cup Own(e), "map", TmmOk(e))
    [] e.op = "note" -> UNCHANGED vars /\ Ok

\* every violated clause is reported with the line that violates it; the check
\* keeps the first one of every scenario
Report == fail' # {} => PrintT(<<"FAIL", l, fail'>>)
TraceInit == Init /\ l = 1 /\ fail = {}
TraceNext == l <= Len(Log) /\ l' = l + 1 /\ Step(Log[l]) /\ Report
TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* every line was consumed
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
Alias == [line |-> l - 1, violated |-> fail]
=============================================================================
