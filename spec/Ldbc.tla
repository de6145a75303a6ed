-------------------------------- MODULE Ldbc --------------------------------
(***************************************************************************)
(* Import of an LDBC social network directory.  The input is a sequence of *)
(* files in the order in which the directory lists them; a file is         *)
(* [role |-> name, rows |-> <<row, ...>>] with a row a sequence of fields. *)
(***************************************************************************)
EXTENDS Graphs

NodeFiles == <<
  [role |-> "organisation", id |-> 1, lab |-> 2],
  [role |-> "place",        id |-> 1, lab |-> 4] >>
R(s, t, x) == [role |-> s \o "_" \o x \o "_" \o t, s |-> s, t |-> t, lab |-> x]
Relations == <<
  R("comment", "person", "hasCreator"), R("comment", "tag", "hasTag"),
  R("comment", "place", "isLocatedIn"), R("comment", "comment", "replyOf"),
  R("comment", "post", "replyOf"), R("forum", "post", "containerOf"),
  R("forum", "person", "hasMember"), R("forum", "person", "hasModerator"),
  R("forum", "tag", "hasTag"), R("organisation", "place", "isLocatedIn"),
  R("person", "tag", "hasInterest"), R("person", "place", "isLocatedIn"),
  R("person", "person", "knows"), R("person", "comment", "likes"),
  R("person", "post", "likes"), R("person", "organisation", "studyAt"),
  R("person", "organisation", "workAt"), R("place", "place", "isPartOf"),
  R("post", "person", "hasCreator"), R("post", "tag", "hasTag"),
  R("post", "place", "isLocatedIn"), R("tag", "tagclass", "hasType"),
  R("tagclass", "tagclass", "isSubclassOf") >>

\* state of the import: graph and entity table (sequence of <<type, identifier>>)
NextId(x) == IF x.g.mx = None THEN 0 ELSE x.g.mx[1] + 1
Lookup(x, key) == IF key \in DOMAIN x.ids THEN x.ids[key] ELSE NextId(x)
Entity(x, key, lab) == \* an entity first mentioned in a relation is labelled by its type
    IF key \in DOMAIN x.ids THEN x
    ELSE [g |-> AddNodeG(x.g, NextId(x), Some(lab)), ids |-> Put(x.ids, key, NextId(x))]
NodeRow(x, f, row) ==
    LET key == <<f.role, row[f.id]>>
        i == Lookup(x, key)
    IN [g |-> AddNodeG(x.g, i, Some(row[f.lab])), ids |-> Put(x.ids, key, i)]
EdgeRow(x, r, row) ==
    LET a == <<r.s, row[1]>>
        b == <<r.t, row[2]>>
        y == Entity(Entity(x, a, r.s), b, r.t)
    IN [y EXCEPT !.g = AddEdgeG(@, y.ids[a], y.ids[b], Some(r.lab))]
Rows(files, role) ==
    FoldL(LAMBDA acc, f : IF f.role = role THEN acc \o f.rows ELSE acc, <<>>, files)
Import(dir, files) ==
    LET s0 == [g |-> EmptyG(dir, <<>>, <<>>), ids |-> EmptyFn]
        s1 == FoldL(LAMBDA x, f : FoldL(LAMBDA y, row : NodeRow(y, f, row), x, Rows(files, f.role)), s0, NodeFiles)
        s2 == FoldL(LAMBDA x, r : FoldL(LAMBDA y, row : EdgeRow(y, r, row), x, Rows(files, r.role)), s1, Relations)
    IN s2.g
=============================================================================
