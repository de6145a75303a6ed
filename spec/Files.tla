-------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* What writing to files goes through, one system call at a time: creating *)
(* (truncating) a file, handing blocks to a buffered writer, the writer    *)
(* passing full buffers on to the disk, the final flush, removing files    *)
(* that an earlier dump left behind.  Any file may be impossible to create *)
(* or remove, or take only so many bytes; an export may be cut at any      *)
(* point by a crash.                                                       *)
(*   Mode "dump"    static graph -> offsets/edges/labels of both           *)
(*                  directions, node labels, auxiliary file                *)
(*   Mode "export"  one self-delimiting file                               *)
(*   Mode "csv"     node file, then edge file                              *)
(* The disk is what a later load / import sees; it must be the new object  *)
(* exactly when success was reported, whatever was there before.           *)
(* A file is a sequence of cells (one per vector element).                 *)
(***************************************************************************)
EXTENDS Csr

CONSTANTS Mode,      \* "dump" | "export" | "csv"
          MaxN,      \* nodes of the largest graph
          BufSize,   \* capacity of the buffered writer
          Block,     \* cells handed to the writer at a time
          Faulty,    \* may anything go wrong?
          Stale      \* "none" | "full" | "any": what was there before

VARIABLES old, new, disk, todo, cur, res, plan, made
fvars == <<old, new, disk, todo, cur, res, plan, made>>

Sent == 9
\* small graphs of every shape: with and without nodes, edges, node labels, edge labels
Shapes == [dir : BOOLEAN, n : 0..MaxN, nl : BOOLEAN, el : BOOLEAN, noedge : BOOLEAN]
GraphS(s) ==
    LET V == 0..(s.n - 1)
        K == IF s.noedge THEN {} ELSE {k \in V \X V : k[1] + 1 = k[2] \/ (k[1] = k[2] /\ k[1] = s.n - 1)}
    IN [dir |-> s.dir,
        n |-> [i \in V |-> IF s.nl /\ i # 1 THEN Some(0) ELSE None],
        e |-> [k \in K |-> IF s.el /\ k[1] # k[2] THEN Some(1) ELSE None],
        nm |-> IF s.nl THEN <<"a">> ELSE <<>>, em |-> IF s.el THEN <<"x", "y">> ELSE <<>>,
        mx |-> IF s.n = 0 THEN None ELSE Some(s.n - 1), im |-> "static"]
Usable(s) == (s.noedge => ~s.el) /\ (s.n = 0 => s.noedge)
Objects == {GraphS(s) : s \in {s \in Shapes : Usable(s)}}
Fullest == GraphS([dir |-> TRUE, n |-> MaxN, nl |-> TRUE, el |-> TRUE, noedge |-> FALSE])

TaskP(f, d) == [t |-> "put", f |-> f, d |-> d]
TaskR(f) == [t |-> "rm", f |-> f, d |-> <<>>]
Vec(pre, g, Adj(_), lab) ==
    <<TaskP(pre \o ".offsets", EncOff(g, Adj)), TaskP(pre \o ".edges", EncEdg(g, Adj)),
      IF lab # <<>> THEN TaskP(pre \o ".labels", lab) ELSE TaskR(pre \o ".labels")>>
\* self-delimiting form: every part is preceded by its length
Parts(p) == FoldL(LAMBDA acc, x : acc \o <<Len(x)>> \o x, <<>>, p)
LabOpts(g) == [i \in 1..NodeCount(g) |-> IF IsNone(g.n[i - 1]) THEN Sent ELSE g.n[i - 1][1]]
Encoded(g) == Parts(<<<<IF g.dir THEN 1 ELSE 0>>, EncOff(g, LAMBDA i : Out(g, i)), EncEdg(g, LAMBDA i : Out(g, i)),
                      IF UsedE(g) = {} THEN <<>> ELSE EncLab(g, Sent), LabOpts(g), g.nm, g.em>>)
Tasks(g) ==
    CASE Mode = "dump" ->
           Vec("OUT", g, LAMBDA i : Out(g, i), IF UsedE(g) = {} THEN <<>> ELSE EncLab(g, Sent))
           \o (IF g.dir THEN Vec("IN", g, LAMBDA i : In(g, i), <<>>)
               ELSE <<TaskR("IN.offsets"), TaskR("IN.edges"), TaskR("IN.labels")>>)
           \o <<IF UsedN(g) # {} THEN TaskP("labels", EncNl(g, Sent)) ELSE TaskR("labels"),
                TaskP("aux", Parts(<<<<NodeCount(g)>>, <<EdgeCount(g)>>, g.nm, g.em>>))>>
      [] Mode = "export" -> <<TaskP("file", Encoded(g))>>
      [] Mode = "csv" -> <<TaskP("nodes", SortedSeq(Nodes(g)) \o <<0>>), TaskP("edges", <<0>> \o EncEdg(g, LAMBDA i : Out(g, i)))>>

\* what an undisturbed write leaves behind
Undisturbed(d, ts) == FoldL(LAMBDA x, t : IF t.t = "put" THEN Put(x, t.f, t.d) ELSE Drop(x, {t.f}), d, ts)

--------------------------------------------------------------------------
(* Reading back.                                                           *)
\* splits a self-delimiting file into its parts; None if it ends too early
Split(s, k) ==
    LET RECURSIVE P(_, _, _)
        P(x, i, acc) == IF i = 0 THEN Some(acc)
                        ELSE IF x = <<>> THEN None
                        ELSE IF Len(x) < 1 + x[1] THEN None
                        ELSE P(SubSeq(x, 2 + x[1], Len(x)), i - 1, Append(acc, SubSeq(x, 2, 1 + x[1])))
    IN P(s, k, <<>>)
Has(d, f) == f \in DOMAIN d
OptF(d, f) == IF Has(d, f) THEN Some(d[f]) ELSE None
\* loading a dump, with the presence of files deciding what the graph has
LoadD(d) ==
    IF ~(Has(d, "OUT.offsets") /\ Has(d, "OUT.edges")) THEN None
    ELSE LET dir == Has(d, "IN.offsets")
             lab == OptF(d, "OUT.labels")
             aux == IF Has(d, "aux") THEN Split(d["aux"], 4) ELSE None
             g == Decode(dir, d["OUT.offsets"], d["OUT.edges"],
                         lab, OptF(d, "labels"), Sent,
                         IF IsNone(aux) THEN <<>> ELSE aux[1][3], IF IsNone(aux) THEN <<>> ELSE aux[1][4])
         IN Some([g |-> g, nc |-> IF IsNone(aux) THEN NodeCount(g) ELSE aux[1][1][1],
                  ec |-> IF IsNone(aux) THEN EdgeCount(g) ELSE aux[1][2][1]])
\* importing an exported file
ImportF(d) ==
    IF ~Has(d, "file") THEN None
    ELSE LET p == Split(d["file"], 7)
         IN IF IsNone(p) THEN None
            ELSE Some(Decode(p[1][1][1] = 1, p[1][2], p[1][3], IF p[1][4] = <<>> THEN None ELSE Some(p[1][4]),
                             Some(p[1][5]), Sent, p[1][6], p[1][7]))
IsLoaded(d, g) ==
    CASE Mode = "dump" -> LET x == LoadD(d) IN ~IsNone(x) /\ x[1].g = g /\ x[1].nc = NodeCount(g) /\ x[1].ec = EdgeCount(g)
      [] Mode = "export" -> ImportF(d) = Some(g)
      [] Mode = "csv" -> d = Undisturbed(disk, Tasks(g))

--------------------------------------------------------------------------
Files == {Tasks(new)[i].f : i \in DOMAIN Tasks(new)}
NoPlan == [f |-> "", k |-> "none", cap |-> 0]
Longest == MaxOf({Len(Tasks(new)[i].d) : i \in DOMAIN Tasks(new)})
Plans == {NoPlan} \cup (IF Faulty THEN {[f |-> f, k |-> "create", cap |-> 0] : f \in Files}
                                       \cup {[f |-> f, k |-> "full", cap |-> c] : f \in Files, c \in 0..Longest}
                        ELSE {})
FInit ==
    /\ new \in Objects
    /\ old \in CASE Stale = "none" -> {None}
                 [] Stale = "full" -> {None, Some(Fullest)}
                 [] Stale = "any" -> {None} \cup {Some(g) : g \in Objects}
    /\ disk = (IF IsNone(old) THEN EmptyFn ELSE Undisturbed(EmptyFn, Tasks(old[1])))
    /\ todo = Tasks(new) /\ cur = None /\ res = "run" /\ made = {}
    /\ plan \in Plans

Quiet == UNCHANGED <<old, new, plan>>
Fail == /\ res' = "err" /\ todo' = <<>> /\ cur' = None
Create ==
    /\ res = "run" /\ cur = None /\ todo # <<>> /\ Head(todo).t = "put"
    /\ IF plan.k = "create" /\ plan.f = Head(todo).f
       THEN Fail /\ UNCHANGED <<disk, made>>
       ELSE /\ disk' = Put(disk, Head(todo).f, <<>>) /\ made' = made \cup {Head(todo).f}
            /\ cur' = Some([f |-> Head(todo).f, rest |-> Head(todo).d, buf |-> <<>>])
            /\ todo' = Tail(todo) /\ UNCHANGED res
    /\ Quiet
Remove ==
    /\ res = "run" /\ cur = None /\ todo # <<>> /\ Head(todo).t = "rm"
    /\ IF ~Has(disk, Head(todo).f)
       THEN todo' = Tail(todo) /\ UNCHANGED <<disk, cur, res, made>>
       ELSE IF plan.k = "create" /\ plan.f = Head(todo).f
       THEN Fail /\ UNCHANGED <<disk, made>>
       ELSE disk' = Drop(disk, {Head(todo).f}) /\ todo' = Tail(todo) /\ UNCHANGED <<cur, res, made>>
    /\ Quiet
\* hand cells to the disk; what does not fit is lost and reported
Hand(f, d, next) ==
    LET room == IF plan.k = "full" /\ plan.f = f THEN plan.cap - Len(disk[f]) ELSE 1000
    IN IF Len(d) <= room
       THEN /\ disk' = [disk EXCEPT ![f] = @ \o d] /\ cur' = next /\ UNCHANGED <<todo, res>>
       ELSE /\ disk' = [disk EXCEPT ![f] = @ \o SubSeq(d, 1, room)] /\ Fail
Chunk(c) == SubSeq(c.rest, 1, IF Len(c.rest) < Block THEN Len(c.rest) ELSE Block)
Rest(c) == SubSeq(c.rest, Len(Chunk(c)) + 1, Len(c.rest))
\* the buffer has no room for the next block: pass it on
Spill ==
    /\ res = "run" /\ cur # None /\ cur[1].rest # <<>>
    /\ LET c == cur[1]
       IN /\ c.buf # <<>> /\ Len(c.buf) + Len(Chunk(c)) > BufSize
          /\ Hand(c.f, c.buf, Some([c EXCEPT !.buf = <<>>]))
    /\ UNCHANGED made /\ Quiet
Take ==
    /\ res = "run" /\ cur # None /\ cur[1].rest # <<>>
    /\ LET c == cur[1]
       IN /\ c.buf = <<>> \/ Len(c.buf) + Len(Chunk(c)) <= BufSize
          /\ IF Len(Chunk(c)) >= BufSize
             THEN Hand(c.f, Chunk(c), Some([c EXCEPT !.rest = Rest(c)]))
             ELSE /\ cur' = Some([c EXCEPT !.rest = Rest(c), !.buf = @ \o Chunk(c)])
                  /\ UNCHANGED <<disk, todo, res>>
    /\ UNCHANGED made /\ Quiet
Flush ==
    /\ res = "run" /\ cur # None /\ cur[1].rest = <<>>
    /\ Hand(cur[1].f, cur[1].buf, None)
    /\ UNCHANGED made /\ Quiet
Done == res = "run" /\ cur = None /\ todo = <<>> /\ res' = "ok" /\ UNCHANGED <<disk, todo, cur, made>> /\ Quiet
\* the process dies: what is in its buffers is lost
Crash == /\ Mode = "export" /\ Faulty /\ res = "run"
         /\ res' = "crash" /\ cur' = None /\ todo' = <<>> /\ UNCHANGED <<disk, made>> /\ Quiet
FNext == Create \/ Remove \/ Spill \/ Take \/ Flush \/ Done \/ Crash
FSpec == FInit /\ [][FNext]_fvars /\ WF_fvars(Create \/ Remove \/ Spill \/ Take \/ Flush \/ Done)

--------------------------------------------------------------------------
PutTask == {t \in Range(Tasks(new)) : t.t = "put"}
\* does the planned fault meet this write at all?
Harmful == \/ plan.k = "create" /\ \E t \in Range(Tasks(new)) :
                 t.f = plan.f /\ (t.t = "put" \/ Has(Undisturbed(EmptyFn, IF IsNone(old) THEN <<>> ELSE Tasks(old[1])), t.f))
           \/ plan.k = "full" /\ \E t \in PutTask : t.f = plan.f /\ Len(t.d) > plan.cap
\* every byte is on the disk when success is reported, and only the new object is visible
OkMeansAllThere ==
    res = "ok" => /\ \A t \in PutTask : Has(disk, t.f) /\ disk[t.f] = t.d
                  /\ \A t \in Range(Tasks(new)) : t.t = "rm" => ~Has(disk, t.f)
                  /\ IsLoaded(disk, new)
\* an error exactly when something did not work
ErrorsAreReal == /\ res = "err" => Harmful
                 /\ res = "ok" => ~Harmful
\* an exported file is never half of the old and half of the new object
NeverDamaged ==
    Mode = "export" /\ res \in {"crash", "run", "err"} =>
        ImportF(disk) \in {None, Some(new)} \cup (IF made = {} THEN {old} ELSE {})
\* no proper prefix of an exported object is an object
PrefixRefused ==
    Mode = "export" /\ res = "ok" =>
        \A n \in 0..(Len(disk["file"]) - 1) : ImportF([disk EXCEPT !["file"] = SubSeq(@, 1, n)]) = None
Ends == <>(res # "run")
=============================================================================
