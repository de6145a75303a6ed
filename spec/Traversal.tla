------------------------------ MODULE Traversal ------------------------------
(***************************************************************************)
(* The two searches as the library runs them: a queue (or stack) and a bit *)
(* set of nodes not yet found, indexed up to the largest id.  Every graph  *)
(* over at most N ids, every start, and for the depth-first search every   *)
(* given stack and visited set, is an initial state.  Each call of next()  *)
(* is one step; TLC checks that every reply is admissible for the declared *)
(* order (NextSet of RustGraph), that every node is returned once, and     *)
(* that the search ends and stays at its end.                              *)
(***************************************************************************)
EXTENDS RustGraph

CONSTANTS N, Kind, Parts
VARIABLES x,      \* the specified traversal
          pool,   \* queue / stack of the implementation
          fresh,  \* its bit set: ids (nodes or not) not yet found
          reply, calls
tvars == <<x, pool, fresh, reply, calls, vars>>

Univ == 0..(N - 1)
AdjOf(V, E) == [i \in V |-> {k[2] : k \in {k \in E : k[1] = i}}]
Start(V, E, pre, pend) == [k |-> Kind, V |-> V, adj |-> AdjOf(V, E), vis |-> <<>>, pre |-> pre, pend |-> pend]

TInit ==
    /\ Init
    /\ \E V \in (SUBSET Univ) \ {{}} : \E E \in SUBSET (V \X V) :
         IF Parts
         THEN \E pre \in SUBSET V : \E len \in 0..2 : \E pend \in [1..len -> V \ pre] :
                /\ x = Start(V, E, pre, pend)
                /\ pool = pend
                /\ fresh = (0..MaxOf(V)) \ pre
         ELSE \E s \in V :
                /\ x = Start(V, E, {}, <<s>>)
                /\ pool = <<s>>
                /\ fresh = (0..MaxOf(V)) \ (IF Kind = "bfs" THEN {s} ELSE {})
    /\ reply = None /\ calls = 0

MinOf(S) == CHOOSE a \in S : \A b \in S : a <= b
NextUnvisited == {i \in fresh : i \in x.V}
Nbrs(v) == SortedSeq(x.adj[v])

\* Bfs::next
BfsNext ==
    LET q0 == IF pool # <<>> THEN pool
              ELSE IF NextUnvisited # {} THEN <<MinOf(NextUnvisited)>> ELSE <<>>
        f0 == fresh \ Range(q0)
    IN IF q0 = <<>> THEN pool' = <<>> /\ fresh' = fresh /\ reply' = None
       ELSE LET v == Head(q0)
                new == SelectSeq(Nbrs(v), LAMBDA w : w \in f0)
            IN /\ pool' = Tail(q0) \o new
               /\ fresh' = f0 \ Range(new)
               /\ reply' = Some(v)

\* Dfs::next: a node is visited when it is popped
RECURSIVE Pop(_)
Pop(s) == IF s = <<>> THEN <<s, None>>
          ELSE LET v == s[Len(s)]
                   rest == SubSeq(s, 1, Len(s) - 1)
               IN IF v \in fresh THEN <<rest, Some(v)>> ELSE Pop(rest)
DfsNext ==
    LET p == Pop(pool)
        v == IF p[2] # None THEN p[2]
             ELSE IF NextUnvisited # {} THEN Some(MinOf(NextUnvisited)) ELSE None
    IN IF v = None THEN pool' = p[1] /\ fresh' = fresh /\ reply' = None
       ELSE LET f == fresh \ {v[1]}
            IN /\ fresh' = f
               /\ pool' = p[1] \o SelectSeq(Nbrs(v[1]), LAMBDA w : w \in f)
               /\ reply' = v

Call ==
    /\ calls < Cardinality(x.V) + 2
    /\ calls' = calls + 1
    /\ IF Kind = "bfs" THEN BfsNext ELSE DfsNext
    /\ x' = IF IsNone(reply') THEN x ELSE Visit(x, reply'[1])
    /\ UNCHANGED vars
\* reset forgets what was visited; the next call starts anywhere
Reset ==
    /\ Kind = "dfs" /\ calls > 0 /\ calls <= 2
    /\ x' = [x EXCEPT !.vis = <<>>, !.pre = {}, !.pend = <<>>]
    /\ pool' = <<>> /\ fresh' = 0..MaxOf(x.V) /\ reply' = None /\ calls' = 0
    /\ UNCHANGED vars
TNext == Call \/ (Parts /\ Reset)
TSpec == TInit /\ [][TNext]_tvars

Admissible == [][calls' > calls => IsStep(x, reply')]_tvars
NoRepetition == Distinct(x.vis) /\ Range(x.vis) \subseteq x.V
EndsComplete == calls > Cardinality(x.V \ x.pre) => reply = None /\ Range(x.vis) \cup x.pre = x.V
StaysAtEnd == [][calls > 0 /\ calls' > calls /\ reply = None => reply' = None]_tvars
StartsWhereAsked == ~Parts /\ x.vis # <<>> => x.vis[1] = x.pend[1]
\* independent formulation of breadth-first order: within the part reached from a
\* start, distances from that start never decrease
RECURSIVE Layers(_, _, _)
Layers(done, layer, adj) == IF layer = {} THEN <<>>
                            ELSE <<layer>> \o Layers(done \cup layer, UNION {adj[i] : i \in layer} \ (done \cup layer), adj)
Dist(s, v) == LET L == Layers({}, {s}, x.adj)
              IN IF \E i \in DOMAIN L : v \in L[i] THEN CHOOSE i \in DOMAIN L : v \in L[i] ELSE 99
DistancesGrow ==
    Kind = "bfs" /\ ~Parts /\ x.vis # <<>> =>
      LET s == x.vis[1]
      IN \A i \in 1..(Len(x.vis) - 1) : Dist(s, x.vis[i]) <= Dist(s, x.vis[i + 1])
\* a run judged in one piece is a run judged step by step
Orders == {s \in [1..Cardinality(x.V) -> x.V] : Distinct(s)}
WholeAgrees ==
    calls = 0 /\ ~Parts =>
      \A s \in Orders : \A pend \in {x.pend, <<>>} :
        IsWhole(x.k, x.V, {<<u, v>> \in x.V \X x.V : v \in x.adj[u]}, pend, s) = IsRun([x EXCEPT !.pend = pend], s)
\* independent formulation of both orders by triples: a is visited before b, and c,
\* which a leads to and b did not need, after b.  Then something found b: in
\* breadth-first order a node before a, in depth-first order a node between a and b
Later(i) == {x.vis[l] : l \in (i + 1)..Len(x.vis)} \cup (x.V \ Range(x.vis))
Triples ==
    ~Parts =>
      \A i, j \in DOMAIN x.vis :
        i < j /\ x.vis[j] \notin x.adj[x.vis[i]] /\ x.adj[x.vis[i]] \cap Later(j) # {} =>
          \E l \in DOMAIN x.vis : /\ x.vis[j] \in x.adj[x.vis[l]]
                                  /\ IF Kind = "bfs" THEN l < i ELSE i < l /\ l < j
=============================================================================
