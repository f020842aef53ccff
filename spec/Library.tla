------------------------------ MODULE Library ------------------------------
(***************************************************************************)
(* How well spectral libraries represent the features of a pixel: for each *)
(* library the smallest mean absolute difference between the pixel and one *)
(* of its samples, over the features that are valid, and the smallest of   *)
(* all libraries.  Optionally, pixel and samples are standardised with the *)
(* mean and standard deviation of the library first.                       *)
(*                                                                         *)
(* A library has its means and standard deviations as constants (checked   *)
(* below), so that differences stay exact: standard deviations divide 200. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Emit

Cfg == InputsFrom("CONFIGS")     \* [rescale, exclude, libs: [rows, mean, sd]]
Px  == InputsFrom("PIXELS")      \* [cfg, x, ok, masked]

VARIABLES px, lib, row, best, found
vars == <<px, lib, row, best, found>>

C     == Cfg[Px[px].cfg]
P     == Px[px]
F     == 1..Len(P.x)
Valid == {f \in F: P.ok[f]}
Dist(a, b) == IF a < b THEN b - a ELSE a - b

(* sum of the differences over the valid features: in 1/200 standard deviations if rescaled *)
Total(l, r) == SumSeq([f \in F |-> IF ~P.ok[f] THEN 0
                                ELSE IF C.rescale THEN Dist(C.libs[l].rows[r][f], P.x[f]) * (200 \div C.libs[l].sd[f])
                                ELSE Dist(C.libs[l].rows[r][f], P.x[f])])

Skipped == P.masked \/ Valid = {} \/ (C.exclude /\ Valid /= F)

Init == px \in 1..Len(Px) /\ lib = 1 /\ row = 1 /\ best = -1 /\ found = <<>>

Compare == /\ ~Skipped /\ lib <= Len(C.libs) /\ row <= Len(C.libs[lib].rows)
           /\ best' = IF best < 0 \/ Total(lib, row) < best THEN Total(lib, row) ELSE best
           /\ row' = row + 1
           /\ UNCHANGED <<px, lib, found>>
Close == /\ ~Skipped /\ lib <= Len(C.libs) /\ row > Len(C.libs[lib].rows)
         /\ found' = Append(found, best)
         /\ best' = -1 /\ row' = 1 /\ lib' = lib + 1
         /\ UNCHANGED px
Least(q) == CHOOSE v \in {q[i]: i \in DOMAIN q}: \A i \in DOMAIN q: v <= q[i]
Report == /\ lib <= Len(C.libs) + 1
          /\ Skipped \/ lib = Len(C.libs) + 1
          /\ Emit([px |-> px, skipped |-> Skipped, found |-> found, least |-> IF Skipped THEN 0 ELSE Least(found), n |-> Cardinality(Valid)])
          /\ lib' = Len(C.libs) + 2
          /\ UNCHANGED <<px, row, best, found>>
Next == Compare \/ Close \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(lib = Len(C.libs) + 2)

(* the constants of the libraries are their means and standard deviations *)
Described == \A l \in DOMAIN C.libs: LET L == C.libs[l] n == Len(L.rows) IN
    \A f \in DOMAIN L.mean:
        /\ SumSeq([r \in 1..n |-> L.rows[r][f]]) = n * L.mean[f]
        /\ SumSeq([r \in 1..n |-> (L.rows[r][f] - L.mean[f]) * (L.rows[r][f] - L.mean[f])]) = (n - 1) * L.sd[f] * L.sd[f]
(* a pixel that equals a sample is represented perfectly *)
Member == \A l \in DOMAIN found: (\E r \in DOMAIN C.libs[l].rows: \A f \in Valid: C.libs[l].rows[r][f] = P.x[f]) <=> found[l] = 0

(* must be violated *)
NoMember == \A l \in DOMAIN found: found[l] > 0
NothingSkipped == ~Skipped
=============================================================================
