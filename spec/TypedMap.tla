------------------------------- MODULE TypedMap -------------------------------
(***************************************************************************)
(* Dumping a slice of elements of a given width byte by byte (in blocks    *)
(* that need not be a multiple of the width), possibly losing or gaining   *)
(* trailing bytes afterwards, and mapping the file as elements again.      *)
(* A byte is <<element, place>>.                                           *)
(***************************************************************************)
EXTENDS Graphs, Integers
CONSTANTS MaxLen, MaxWidth, Block

VARIABLES n, w, rest, file, extra, mapped
mvars == <<n, w, rest, file, extra, mapped>>

Elem(i) == [p \in 1..w |-> <<i, p>>]
RECURSIVE BytesFrom(_, _)
BytesFrom(i, k) == IF i > k THEN <<>> ELSE Elem(i) \o BytesFrom(i + 1, k)
Bytes == BytesFrom(1, n)
Data == [i \in 1..n |-> Elem(i)]

MInit == /\ n \in 0..MaxLen /\ w \in 1..MaxWidth
         /\ rest = Bytes /\ file = <<>> /\ extra \in -w..w /\ mapped = None
Min2(a, b) == IF a < b THEN a ELSE b
Dump == /\ rest # <<>> /\ mapped = None
        /\ LET k == Min2(Block, Len(rest))
           IN file' = file \o SubSeq(rest, 1, k) /\ rest' = SubSeq(rest, k + 1, Len(rest))
        /\ UNCHANGED <<n, w, extra, mapped>>
\* whole elements only; an empty file maps to nothing
Elements(f) == [i \in 1..(Len(f) \div w) |-> SubSeq(f, (i - 1) * w + 1, i * w)]
\* the file is mapped after it lost (extra < 0) or gained (extra > 0) some bytes
Damaged == IF extra > 0 THEN file \o [i \in 1..extra |-> <<0, i>>]
           ELSE IF -extra <= Len(file) THEN SubSeq(file, 1, Len(file) + extra) ELSE <<>>
Map == /\ rest = <<>> /\ mapped = None
       /\ mapped' = Some(Elements(Damaged)) /\ UNCHANGED <<n, w, rest, file, extra>>
MNext == Dump \/ Map
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(MNext)

Full == mapped[1]
From(a) == IF a > Len(Full) THEN None ELSE Some(SubSeq(Full, a + 1, Len(Full)))
To(b) == IF b > Len(Full) THEN None ELSE Some(SubSeq(Full, 1, b))
\* dumping writes exactly the bytes
ExactBytes == rest = <<>> => file = Bytes
\* mapping an undamaged dump gives back exactly the data, whatever the block size
ExactElements == mapped # None /\ extra = 0 => Full = Data
\* with a partial element at the end, the whole ones remain
WholeOnes == mapped # None =>
    LET m == Len(Full)
    IN /\ m = Len(Damaged) \div w
       /\ \A i \in 1..Min2(m, n) : Full[i] = Data[i]
       /\ extra < w => m <= n
Slices == mapped # None =>
    \A k \in 0..(Len(Full) + 2) :
        /\ (From(k) = None) = (k > Len(Full)) /\ (To(k) = None) = (k > Len(Full))
        /\ k <= Len(Full) => To(k)[1] \o From(k)[1] = Full
Ends == <>(mapped # None)
=============================================================================
