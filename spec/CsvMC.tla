-------------------------------- MODULE CsvMC --------------------------------
(***************************************************************************)
(* Kind "round": every small table of awkward labels is written and read   *)
(* back character by character; the table, and the graph it stands for,    *)
(* must come back.                                                         *)
(* Kind "rows": every short text over a small alphabet is read as a node   *)
(* file, then as an edge file, row by row into a graph that may already    *)
(* hold something; the outcome must be what RustGraph!ReadRows says, and   *)
(* what the iterators yield.                                               *)
(***************************************************************************)
EXTENDS RustGraph, CsvText

CONSTANTS Kind, Alphabet, MaxLab, NRows, MaxText, Dir

VARIABLES text, rows, sep, pos, rd, cfg, g, applied, width
cvars == <<vars, text, rows, sep, pos, rd, cfg, g, applied, width>>

SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Labs == SeqsUpTo(Alphabet, MaxLab)
Seps == {",", " ", "\t", "a"}
Digit == {"0", "1", "2"}
ValueOf(f) == IF f[1] = "0" THEN 0 ELSE IF f[1] = "1" THEN 1 ELSE 2
\* what a field means: an id if it is a digit, otherwise some label text
Kindly(f) == IF f = <<>> THEN <<"empty", "">>
             ELSE IF Len(f) = 1 /\ f[1] \in Digit THEN <<"id", f, ValueOf(f)>>
             ELSE <<"txt", f>>
KRow(row) == [i \in DOMAIN row |-> Kindly(row[i])]

G0 == EmptyG(Dir, <<>>, <<>>)
G1 == AddEdgeG(AddNodeG(G0, 1, Some(<<"z">>)), 2, 1, Some(<<"y">>))

CInit ==
    /\ Init
    /\ pos = 1 /\ rd = R0 /\ applied = 0 /\ width = 0
    /\ CASE Kind = "round" ->
             /\ sep \in Seps
             /\ \E t \in [1..NRows -> Labs] : rows = [i \in 1..NRows |-> <<<<ToString(i - 1)>>, t[i]>>]
             /\ text = Text(<<<<<<"n", ":">>, <<":", "L">>>>>> \o rows, sep)
             /\ cfg = [headers |-> TRUE, flex |-> FALSE, nodes |-> TRUE, base |-> 0]
             /\ g = G0
         [] Kind = "rows" ->
             /\ sep = ","
             /\ text \in SeqsUpTo(Alphabet, MaxText)
             /\ rows = Parse(text, sep)
             /\ cfg \in [headers : BOOLEAN, flex : BOOLEAN, nodes : BOOLEAN, base : {0, 1}]
             /\ g = (IF cfg.base = 0 THEN G0 ELSE G1)

\* the reader: one character at a time; as soon as a row is complete it is applied or skipped
Usable(row) == /\ Len(row) >= (IF cfg.nodes THEN 1 ELSE 2)
               /\ \A i \in 1..(IF cfg.nodes THEN 1 ELSE 2) : Kindly(row[i])[1] = "id"
LabOf(row, i) == IF Len(row) < i THEN None ELSE IF row[i] = <<>> THEN None
                 ELSE Some(row[i])
ApplyRow(h, row) ==
    IF ~Usable(row) THEN h
    ELSE IF cfg.nodes THEN AddNodeG(h, ValueOf(row[1]), LabOf(row, 2))
    ELSE AddEdgeG(h, ValueOf(row[1]), ValueOf(row[2]), LabOf(row, 3))
Consume(r) ==
    \/ /\ Len(r.rows) = Len(rd.rows)
       /\ UNCHANGED <<g, applied, width>>
    \/ /\ Len(r.rows) = Len(rd.rows) + 1
       /\ LET row == r.rows[Len(r.rows)]
              first == rd.rows = <<>>
              w == IF first THEN Len(row) ELSE width
          IN /\ width' = w
             /\ IF (first /\ cfg.headers) \/ (~cfg.flex /\ Len(row) # w)
                THEN UNCHANGED <<g, applied>>
                ELSE g' = ApplyRow(g, row) /\ applied' = applied + (IF Usable(row) THEN 1 ELSE 0)
CNext ==
    /\ pos <= Len(text) + 1
    /\ LET r == IF pos <= Len(text) THEN Feed(rd, text[pos], sep) ELSE [rd EXCEPT !.rows = AtEnd(rd)]
       IN rd' = r /\ Consume(r)
    /\ pos' = pos + 1
    /\ UNCHANGED <<vars, text, rows, sep, cfg>>
CSpec == CInit /\ [][CNext]_cvars

Finished == pos = Len(text) + 2
\* what was written is what is read
RoundTrip == Finished /\ Kind = "round" => Tail(rd.rows) = rows
LabelsComeBack ==
    Finished /\ Kind = "round" =>
        /\ Nodes(g) = 0..(NRows - 1)
        /\ \A i \in Nodes(g) : NLab(g, i) = LabOf(rows[i + 1], 2)
\* the specification's view of the same file
Body == IF cfg.headers THEN Tail(rows) ELSE rows
SpecRows == [i \in DOMAIN Body |-> KRow(Body[i])]
First == IF rows = <<>> THEN 0 ELSE Len(rows[1])
Ns == IF cfg.nodes /\ rows # <<>> THEN NodeRows(SpecRows, First, cfg.flex, cfg.headers) ELSE <<>>
Es == IF ~cfg.nodes /\ rows # <<>> THEN EdgeRows(SpecRows, First, cfg.flex, cfg.headers) ELSE <<>>
RowByRow ==
    Finished /\ Kind = "rows" =>
        g = ApplyRows(IF cfg.base = 0 THEN G0 ELSE G1, Ns, Es) /\ applied = Len(Ns) + Len(Es)
NothingElse == Kind = "rows" => NodeCount(g) <= 2 + 2 * applied
SameRows == Finished => rd.rows = Parse(text, sep)
=============================================================================
