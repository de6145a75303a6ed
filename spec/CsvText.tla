------------------------------- MODULE CsvText -------------------------------
(***************************************************************************)
(* The text form of CSV files.  A text is a sequence of characters, each a *)
(* one-character string; rows are sequences of field texts (sequences of   *)
(* characters).                                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Q == "\""
Lf == "\n"
Cr == "\r"

(* Reading is an automaton over                                            *)
(*   st   "row" at the start of a line, "start" of a field, in a "plain"   *)
(*        field, in a "quoted" one, after a quote inside a quoted field    *)
(*        ("close"), in the rest of a field after its closing quote        *)
(*   rows the finished rows, row the finished fields of this one, fld      *)
R0 == [st |-> "row", rows |-> <<>>, row |-> <<>>, fld |-> <<>>]
EndField(r) == [r EXCEPT !.st = "start", !.row = Append(@, r.fld), !.fld = <<>>]
EndRow(r) == [st |-> "row", rows |-> Append(r.rows, Append(r.row, r.fld)), row |-> <<>>, fld |-> <<>>]
Into(r, st, ch) == [r EXCEPT !.st = st, !.fld = Append(@, ch)]
Feed(r, ch, sep) ==
    CASE r.st = "row" /\ ch \in {Lf, Cr} -> r                          \* blank lines do not count
      [] r.st \in {"row", "start"} /\ ch = Q -> [r EXCEPT !.st = "quoted"]
      [] r.st = "quoted" -> IF ch = Q THEN [r EXCEPT !.st = "close"] ELSE Into(r, "quoted", ch)
      [] r.st = "close" /\ ch = Q -> Into(r, "quoted", Q)              \* a doubled quote is a quote
      [] ch = sep -> EndField(r)
      [] ch \in {Lf, Cr} -> EndRow(r)
      [] OTHER -> Into(r, "plain", ch)
AtEnd(r) == IF r.st = "row" THEN r.rows ELSE EndRow(r).rows
\* left-to-right fold without deep recursion on the whole text
RECURSIVE FeedAll(_, _, _, _)
FeedAll(r, s, i, sep) == IF i > Len(s) THEN r ELSE FeedAll(Feed(r, s[i], sep), s, i + 1, sep)
Parse(s, sep) == AtEnd(FeedAll(R0, s, 1, sep))

(* Writing: fields are quoted if they have to be.                          *)
NeedsQuote(f, sep) == \E i \in DOMAIN f : f[i] \in {sep, Q, Lf, Cr}
RECURSIVE Doubled(_)
Doubled(f) == IF f = <<>> THEN <<>> ELSE (IF Head(f) = Q THEN <<Q, Q>> ELSE <<Head(f)>>) \o Doubled(Tail(f))
Field(f, sep) == IF NeedsQuote(f, sep) THEN <<Q>> \o Doubled(f) \o <<Q>> ELSE f
RECURSIVE Line(_, _)
Line(row, sep) == IF Len(row) = 1 THEN (IF row[1] = <<>> THEN <<Q, Q>> ELSE Field(row[1], sep)) \o <<Lf>>
                  ELSE Field(row[1], sep) \o <<sep>> \o
                       (IF Len(row) = 2 THEN Field(row[2], sep) \o <<Lf>> ELSE Line(Tail(row), sep))
RECURSIVE Text(_, _)
Text(rows, sep) == IF rows = <<>> THEN <<>> ELSE Line(Head(rows), sep) \o Text(Tail(rows), sep)
=============================================================================
