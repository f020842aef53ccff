---------------------------- MODULE Resolution ----------------------------
(* Images that are read at another resolution. Row by row, every cell of the target grid gets the outcomes that an image with pixels of another size     *)
(* admits: the pixel at the centre of the cell, or - when smoothing is requested and cells are coarser than pixels - an average of what is around.         *)
EXTENDS Emit

Jobs == InputsFrom("JOBS")
\* job: id; a: pixel size of the image; b: cell size; m: pixel size of the mask; strip: height of the strips that are read at once; psf: smoothing requested
\* img: grid of values; off: the value of no data; usable, mask: grids of 0/1
VARIABLES i, row, out
vars == <<i, row, out>>
J == Jobs[i]
Ny == (Len(J.img) * J.a) \div J.b
Nx == (Len(J.img[1]) * J.a) \div J.b
Ceil(x, y) == (x + y - 1) \div y
\* pixels of size s that contain the centre of cell k (counted from 0); two if the centre is on an edge
At(s, b, k) == LET c == (2 * k + 1) * b IN { q \in { c \div (2 * s), Ceil(c, 2 * s) - 1 } : q >= 0 }
\* pixels that cell k covers at least in part
First(k) == (k * J.b) \div J.a
Final(k) == Ceil((k + 1) * J.b, J.a) - 1
Smooth == J.psf = 1 /\ J.a < J.b
Reach == J.b \div J.a
Val(r, c) == J.img[r + 1][c + 1]
Around(lo, hi, n) == Max2(lo, 0) .. Min2(hi, n - 1)
Box(r, c) == { v \in { Val(y, x) : y \in First(r) .. Final(r), x \in First(c) .. Final(c) } : v # J.off }
Window(r, c) == { v \in { Val(y, x) : y \in Around(First(r) - Reach, Final(r) + Reach, Len(J.img)), x \in Around(First(c) - Reach, Final(c) + Reach, Len(J.img[1])) } : v # J.off }
\* around the cell, what is on the one side is balanced by the other side, and everything around belongs to the same strip
Whole(r, c) == LET n == J.strip \div J.a IN
   /\ J.b % J.a = 0
   /\ First(c) >= Reach /\ Final(c) + Reach < Len(J.img[1])
   /\ First(r) - Reach >= (First(r) \div n) * n /\ Final(r) + Reach < (First(r) \div n + 1) * n
Balanced(r, c) == Whole(r, c) /\ LET s == Val(First(r), First(c)) + Val(Final(r), Final(c)) IN
   \A y \in First(r) - Reach .. Final(r) + Reach : \A x \in First(c) - Reach .. Final(c) + Reach :
      /\ Val(y, x) # J.off
      /\ Val(y, x) + Val(First(r) + Final(r) - y, First(c) + Final(c) - x) = s
\* intervals of values
Values(r, c, y, x) ==
   IF ~Smooth THEN IF Val(y, x) = J.off THEN {} ELSE { << Val(y, x), Val(y, x) >> }
   ELSE IF Box(r, c) = {} THEN {}
   ELSE IF Balanced(r, c) THEN LET s == Val(First(r), First(c)) + Val(Final(r), Final(c)) IN { << FloorDiv(s, 2), CeilDiv(s, 2) >> }
   ELSE { << MinSet(Window(r, c)), MaxSet(Window(r, c)) >> }
Outcome(r, c) ==
   LET px == At(J.a, J.b, r) \X At(J.a, J.b, c)
       open == { J.mask[z[1] + 1][z[2] + 1] : z \in At(J.m, J.b, r) \X At(J.m, J.b, c) }
       each == { IF J.usable[z[1] + 1][z[2] + 1] = 1 THEN Values(r, c, z[1], z[2]) ELSE {} : z \in px }
   IN [none |-> 0 \in open \/ {} \in each, vals |-> IF 1 \in open THEN UNION each ELSE {}]
Init == i \in 1 .. Len(Jobs) /\ row = 0 /\ out = << >>
Row == /\ row < Ny
       /\ out' = Append(out, [c \in 1 .. Nx |-> Outcome(row, c - 1)])
       /\ row' = row + 1 /\ UNCHANGED i
Tell == row = Ny /\ Emit([id |-> J.id, out |-> out]) /\ row' = Ny + 1 /\ UNCHANGED <<i, out>>
Next == Row \/ Tell \/ (row = Ny + 1 /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
LastRow == { Len(out) } \ { 0 }
\* every cell has an outcome, and values lie within the image
Some == \A r \in LastRow : \A c \in 1 .. Nx : out[r][c].none \/ out[r][c].vals # {}
\* at the same or a finer resolution (of which pixels are multiples) there is no choice
Sure == (J.a % J.b = 0 /\ J.m % J.b = 0) => \A r \in LastRow : \A c \in 1 .. Nx : Cardinality(out[r][c].vals) + (IF out[r][c].none THEN 1 ELSE 0) = 1
\* without smoothing, only values of pixels within the cell or around it occur
Near == ~Smooth => \A r \in LastRow : \A c \in 1 .. Nx : \A v \in out[r][c].vals : v[1] = v[2]
\* vacuity: smoothing never gives anything but the value of the central pixel
Same == Smooth => \A r \in LastRow : \A c \in 1 .. Nx : \A v \in out[r][c].vals : v[1] = v[2]
Finishes == <>(row = Ny + 1)
=============================================================================
