------------------------------ MODULE Warp ------------------------------
(* Images are resampled into the grid: every cell asks where its centre lies in the image and takes the pixel there. In the plane (image and grid have   *)
(* the same coordinate system) positions are computed here, in tenths of metres; for other coordinate systems they are given per cell, in thousandths    *)
(* of pixels. Positions that are too close to the edge of a pixel are left open.                                                                       *)
EXTENDS Emit

Jobs == InputsFrom("JOBS")
\* job: nx, ny, valid: sequence of rows of 0 / 1; x0, y0, nx of cells, ny of cells: window of grid cells; plane: [ res of image, ulx, uly, res of grid ]
\*      or given: sequence of rows of [ x, y ]; slack
VARIABLES i, row, out
vars == <<i, row, out>>
J == Jobs[i]
\* position of a cell in the image, in thousandths of pixels
PlaneX(c) == FloorDiv(((J.x0 + c) * J.plane.grid + J.plane.grid \div 2 - J.plane.ulx) * 1000, J.plane.res)
PlaneY(r) == FloorDiv(((J.y0 + r) * J.plane.grid + J.plane.grid \div 2 - J.plane.uly) * 1000, J.plane.res)
X(c, r) == IF J.inplane THEN PlaneX(c) ELSE J.given[r + 1][c + 1][1]
Y(c, r) == IF J.inplane THEN PlaneY(r) ELSE J.given[r + 1][c + 1][2]
Sure(v) == LET m == v % 1000 IN m >= J.slack /\ m <= 1000 - J.slack
\* -1: nothing there; -2: open; else the number of the pixel
Cell(c, r) ==
  LET x == X(c, r) y == Y(c, r) px == FloorDiv(x, 1000) py == FloorDiv(y, 1000)
      outside == x < -J.slack \/ y < -J.slack \/ x > J.nx * 1000 + J.slack \/ y > J.ny * 1000 + J.slack
  IN IF outside THEN -1
     ELSE IF ~Sure(x) \/ ~Sure(y) THEN -2
     ELSE IF px < 0 \/ px >= J.nx \/ py < 0 \/ py >= J.ny THEN -1
     ELSE IF J.valid[py + 1][px + 1] = 0 THEN -1
     ELSE py * J.nx + px
\* bilinear: the four pixels around, and the share of the right and of the lower ones; only where all four are there
Four(c, r) ==
  LET x == X(c, r) - 500 y == Y(c, r) - 500 px == FloorDiv(x, 1000) py == FloorDiv(y, 1000)
  IN IF px < 0 \/ px + 1 >= J.nx \/ py < 0 \/ py + 1 >= J.ny THEN << >>
     ELSE IF \E a \in {0, 1}, b \in {0, 1} : J.valid[py + 1 + a][px + 1 + b] = 0 THEN << >>
     ELSE << py * J.nx + px, x % 1000, y % 1000 >>
Init == i \in 1 .. Len(Jobs) /\ row = 0 /\ out = << >>
Row == /\ row < J.rows
       /\ out' = Append(out, [c \in 1 .. J.cols |-> [at |-> Cell(c - 1, row), four |-> IF J.smooth THEN Four(c - 1, row) ELSE << >>]])
       /\ row' = row + 1 /\ UNCHANGED i
Tell == row = J.rows /\ Emit([i |-> i, out |-> out]) /\ row' = row + 1 /\ UNCHANGED <<i, out>>
Next == Row \/ Tell \/ (row > J.rows /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* cells in a row read pixels from left to right
Order == (J.inplane /\ out # << >>) =>
  \A c \in 1 .. J.cols - 1 : LET l == out[Len(out)] IN (l[c].at >= 0 /\ l[c + 1].at >= 0) => l[c].at <= l[c + 1].at
Ends == <>(row > J.rows)
\* expected to be violated: every cell finds a pixel
All == \A r \in 1 .. Len(out) : \A c \in 1 .. J.cols : out[r][c].at # -1
=========================================================================
