------------------------------ MODULE Aoi ------------------------------
(* Clipping of images by an area of interest: a pixel stays if its centre lies in one of the polygons (and in none of the holes of this polygon).   *)
(* Coordinates are in tenths of pixels from the upper left corner of the image; features are burned one after the other.                             *)
EXTENDS Emit

Jobs == InputsFrom("JOBS")
\* job: rows, cols, features: sequence of sequence of rings (the first is the outline), ring: sequence of << x, y >>

VARIABLES i, f, kept
vars == <<i, f, kept>>
J == Jobs[i]
Pixels(j) == (0 .. (j.rows - 1)) \X (0 .. (j.cols - 1))

\* does the edge a--b cross the ray from (x, y) to the right?
Crosses(a, b, x, y) ==
  /\ (a[2] > y) # (b[2] > y)
  /\ LET d == b[2] - a[2]
         s == IF d < 0 THEN -1 ELSE 1
     IN (x - a[1]) * d * s < (b[1] - a[1]) * (y - a[2]) * s
InRing(r, x, y) == Cardinality({ k \in 1 .. Len(r) : Crosses(r[k], r[IF k = Len(r) THEN 1 ELSE k + 1], x, y) }) % 2 = 1
InFeature(ft, x, y) == InRing(ft[1], x, y) /\ \A h \in 2 .. Len(ft) : ~InRing(ft[h], x, y)
Covered(j, ft) == { p \in Pixels(j) : InFeature(ft, 10 * p[2] + 5, 10 * p[1] + 5) }

\* pixels whose centre is so close to an edge that rounding decides
Close(a, b, x, y) == /\ 2 * Abs((b[1] - a[1]) * (y - a[2]) - (b[2] - a[2]) * (x - a[1])) <= Abs(b[1] - a[1]) + Abs(b[2] - a[2])
                     /\ x >= Min2(a[1], b[1]) - 1 /\ x <= Max2(a[1], b[1]) + 1 /\ y >= Min2(a[2], b[2]) - 1 /\ y <= Max2(a[2], b[2]) + 1
Unsure(j) == { p \in Pixels(j) : \E k \in 1 .. Len(j.features) : \E h \in 1 .. Len(j.features[k]) : LET r == j.features[k][h] IN
                 \E e \in 1 .. Len(r) : Close(r[e], r[IF e = Len(r) THEN 1 ELSE e + 1], 10 * p[2] + 5, 10 * p[1] + 5) }

Init == i \in 1 .. Len(Jobs) /\ f = 1 /\ kept = {}
Burn == f <= Len(J.features) /\ kept' = kept \union Covered(J, J.features[f]) /\ f' = f + 1 /\ UNCHANGED i
Clip == f = Len(J.features) + 1 /\ Emit([i |-> i, kept |-> kept, unsure |-> Unsure(J)]) /\ f' = f + 1 /\ UNCHANGED <<i, kept>>
Next == Burn \/ Clip \/ (f > Len(J.features) + 1 /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Burn) /\ WF_vars(Clip)
Inside == kept \subseteq Pixels(J)
Grows == [][kept \subseteq kept']_vars
Ends == <>(f > Len(J.features) + 1)
\* expected to be violated: an area never cuts through an image
Whole == kept \in { {}, Pixels(J) }
=========================================================================
