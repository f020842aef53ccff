------------------------------- MODULE Stack -------------------------------
(* Stacking files: the list of (file, band) pairs of the stack is built one after the other, file by file if the numbers of
   bands differ, band by band otherwise. Inputs of different size or from different directories are refused.
   All combinations of up to MaxFiles files with up to MaxBands bands. odd: 0, or the file that has another size (size) or
   comes from another directory (dir). *)
EXTENDS Emit
CONSTANTS MaxFiles, MaxBands

VARIABLES bands, odd, f, b, list, verdict
vars == << bands, odd, f, b, list, verdict >>
Init == /\ bands \in UNION { [ 1..n -> 1..MaxBands ] : n \in 2..MaxFiles }
        /\ odd \in { << 0, "" >> } \cup ((1..MaxFiles) \X { "cols", "rows", "dir" }) /\ odd[1] <= Len(bands)
        /\ f = 1 /\ b = 1 /\ list = << >> /\ verdict = IF odd[1] = 0 THEN "" ELSE "refused"
ByBand == \A q \in DOMAIN bands : bands[q] = bands[1]
n == Len(bands)
Put == /\ verdict = "" /\ list' = Append(list, << f, b >>) /\ UNCHANGED << bands, odd >>
       /\ IF ByBand
          THEN IF f < n THEN f' = f + 1 /\ UNCHANGED << b, verdict >>
               ELSE f' = 1 /\ b' = b + 1 /\ verdict' = IF b = bands[1] THEN "made" ELSE ""
          ELSE IF b < bands[f] THEN b' = b + 1 /\ UNCHANGED << f, verdict >>
               ELSE b' = 1 /\ f' = f + 1 /\ verdict' = IF f = n THEN "made" ELSE ""
       /\ (verdict' = "made" => Emit([ bands |-> bands, odd |-> odd, list |-> list' ]))
Refused == /\ verdict = "refused" /\ verdict' = "told" /\ UNCHANGED << bands, odd, f, b, list >> /\ Emit([ bands |-> bands, odd |-> odd, list |-> list ])
Spec == Init /\ [][Put \/ Refused]_vars

\* every band of every file exactly once
Complete == verdict = "made" => /\ Len(list) = SumSeq(bands)
                                /\ \A q \in DOMAIN bands : \A c \in 1..bands[q] : \E x \in DOMAIN list : list[x] = << q, c >>
\* the bands of one file keep their order, and so do the files within one band
Order == \A x, y \in DOMAIN list : x < y => /\ (list[x][1] = list[y][1] => list[x][2] < list[y][2])
                                            /\ (list[x][2] = list[y][2] => list[x][1] < list[y][1])
=====================================================================
