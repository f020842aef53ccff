------------------------------- MODULE Texture -------------------------------
(* Texture metrics: grey-scale morphology over a round kernel, in the seamless mosaic of all tiles of a data cube. A job
   fixes the tiles that are there, the image, the kernel radius (pixels) and the number of iterations. Cells without data,
   in missing tiles and beyond the cube all hold the nodata value, which takes part like any other value. *)
EXTENDS Integers, Sequences, FiniteSets, Emit

Jobs == InputsFrom("JOBS")
(* [ id, w, h: size of a tile, tiles: sequence of <<x, y>>, rows: values of the mosaic from tile <<0, 0>>, nodata, r: radius,
     it: iterations, exclude: nodata cells give nodata, mask: rows of 0/1, or empty ] *)
VARIABLES k, job, left, ext, a, b, ero, dil, opn, cls
vars == << k, job, left, ext, a, b, ero, dil, opn, cls >>

Rows(j) == Len(j.rows)
Cols(j) == Len(j.rows[1])
InCube(j, y, x) == y \in 1..Rows(j) /\ x \in 1..Cols(j)
                   /\ \E t \in 1..Len(j.tiles) : j.tiles[t] = << (x - 1) \div j.w, (y - 1) \div j.h >>
\* the mosaic with the surroundings that can matter
Reach(j) == 2 * j.r * j.it
Extended(j) == [ y \in (1 - Reach(j))..(Rows(j) + Reach(j)) |-> [ x \in (1 - Reach(j))..(Cols(j) + Reach(j)) |-> IF InCube(j, y, x) THEN j.rows[y][x] ELSE j.nodata ] ]

\* the kernel: cell <<dy, dx>> with |dx| not above the rounded half width of the disc in row dy
Kernel(r) == { << dy, dx >> \in (-r..r) \X (-r..r) : dx = 0 \/ dx * dx - (IF dx < 0 THEN -dx ELSE dx) + 1 <= r * r - dy * dy }

RECURSIVE Best(_, _, _, _, _, _)
\* smallest (s = 1) or largest (s = -1) value of img over the cells of a kernel (a sequence of cells)
Best(img, cells, n, y, x, s) ==
  IF n = 1 THEN img[y + cells[1][1]][x + cells[1][2]]
  ELSE LET p == Best(img, cells, n - 1, y, x, s)  q == img[y + cells[n][1]][x + cells[n][2]] IN IF s * q < s * p THEN q ELSE p
\* one pass; the image shrinks by the radius
Pass(img, cells, r, s) ==
  LET ys == DOMAIN img  xs == DOMAIN img[CHOOSE y \in ys : TRUE]
  IN [ y \in { v \in ys : v - r \in ys /\ v + r \in ys } |-> [ x \in { v \in xs : v - r \in xs /\ v + r \in xs } |-> Best(img, cells, Len(cells), y, x, s) ] ]
Cut(j, img) == [ y \in 1..Rows(j) |-> [ x \in 1..Cols(j) |-> img[y][x] ] ]
Minus(j, p, q) == [ y \in 1..Rows(j) |-> [ x \in 1..Cols(j) |-> p[y][x] - q[y][x] ] ]
Metrics(j) == [ ERO |-> ero, DIL |-> dil, OPN |-> opn, CLS |-> cls, GRD |-> Minus(j, dil, ero), THT |-> Minus(j, ext, opn), BHT |-> Minus(j, cls, ext) ]

Used(j, y, x) == (Len(j.mask) = 0 \/ j.mask[y][x] = 1) /\ (j.exclude => j.rows[y][x] # j.nodata)
Shown(j, m) == [ op \in DOMAIN m |-> [ y \in 1..Rows(j) |-> [ x \in 1..Cols(j) |-> IF Used(j, y, x) THEN m[op][y][x] ELSE j.nodata ] ] ]

\* the images a and b go through the passes: erosion and dilation, then the other way round
Cells == SetToSeq(Kernel(job.r))
Init == k = 0 /\ job = [ it |-> 0 ] /\ left = 0 /\ ext = << >> /\ a = << >> /\ b = << >> /\ ero = << >> /\ dil = << >> /\ opn = << >> /\ cls = << >>
Start == /\ left = 0 /\ k < Len(Jobs) /\ k' = k + 1 /\ job' = Jobs[k + 1] /\ left' = 2 * job'.it + 1
         /\ ext' = Extended(job') /\ a' = ext' /\ b' = ext' /\ ero' = << >> /\ dil' = << >> /\ opn' = << >> /\ cls' = << >>
Work == /\ left > 1 /\ left' = left - 1 /\ UNCHANGED << k, job, ext, opn, cls >>
        /\ LET s == IF left > job.it + 1 THEN 1 ELSE -1
           IN a' = Pass(a, Cells, job.r, s) /\ b' = Pass(b, Cells, job.r, -s)
        /\ IF left' = job.it + 1 THEN ero' = Cut(job, a') /\ dil' = Cut(job, b') ELSE UNCHANGED << ero, dil >>
Finish == /\ left = 1 /\ left' = 0 /\ opn' = Cut(job, a) /\ cls' = Cut(job, b) /\ a' = << >> /\ b' = << >> /\ UNCHANGED << k, job, ext, ero, dil >>
Tell == /\ left = 0 /\ opn # << >> /\ a = << >> /\ a' = << 0 >> /\ Emit([ id |-> job.id, out |-> Shown(job, Metrics(job)) ])
        /\ UNCHANGED << k, job, left, ext, b, ero, dil, opn, cls >>
Next == Work \/ Finish \/ Tell \/ ((k = 0 \/ a = << 0 >>) /\ Start)
Spec == Init /\ [][Next]_vars

\* what morphology asks of the results
Done == opn # << >>
Everywhere(P(_, _)) == Done => \A y \in 1..Rows(job) : \A x \in 1..Cols(job) : P(y, x)
Ordered == Everywhere(LAMBDA y, x : /\ ero[y][x] <= opn[y][x] /\ opn[y][x] <= ext[y][x]
                                    /\ ext[y][x] <= cls[y][x] /\ cls[y][x] <= dil[y][x])
RoundKernel == Done => \A c \in Kernel(job.r) : << -c[1], c[2] >> \in Kernel(job.r) /\ << c[1], -c[2] >> \in Kernel(job.r)
=====================================================================
