------------------------------- MODULE Grid -------------------------------
(* The tiling grid. Tile (0,0) has its upper left corner in the origin; x counts to the east, y to the south; tiles west
   and north of the origin have negative numbers. All lengths are integers in one unit.

   grid: ox, oy (origin), tw, th (tile size), res (pixel size)
   job:  grid, points << <<x, y>> >>, boxes << <<left, bottom, right, top>> >> *)
EXTENDS Emit

Given == InputsFrom("GRIDS")

TileX(g, x) == FloorDiv(x - g.ox, g.tw)
TileY(g, y) == FloorDiv(g.oy - y, g.th)
TileOf(g, p) == << TileX(g, p[1]), TileY(g, p[2]) >>
Left(g, tx) == g.ox + tx * g.tw
Top(g, ty) == g.oy - ty * g.th
PixelOf(g, p) == << (p[1] - Left(g, TileX(g, p[1]))) \div g.res, (Top(g, TileY(g, p[2])) - p[2]) \div g.res >>
\* nothing is said about points on a border of tiles or pixels
Strictly(g, p) == (p[1] - g.ox) % g.res # 0 /\ (g.oy - p[2]) % g.res # 0

Within(g, t, p) == /\ Left(g, t[1]) <= p[1] /\ p[1] < Left(g, t[1] + 1)
                     /\ Top(g, t[2] + 1) < p[2] /\ p[2] <= Top(g, t[2])
\* the exported grid: the smallest range of tiles that covers the box
TilesOf(g, b) == (TileX(g, b[1])..TileX(g, b[3])) \X (TileY(g, b[4])..TileY(g, b[2]))

VARIABLES i, job, k, told
vars == << i, job, k, told >>
Init == i \in 1..Len(Given) /\ job = Given[i] /\ k = 0 /\ told = FALSE
Point == /\ k < Len(job.points) /\ k' = k + 1 /\ UNCHANGED << i, job, told >>
Tell == /\ k = Len(job.points) /\ ~ told /\ told' = TRUE /\ UNCHANGED << i, job, k >>
        /\ Emit([ i |-> i, points |-> [ q \in 1..Len(job.points) |-> [ tile |-> TileOf(job.grid, job.points[q]),
                                                                         pixel |-> PixelOf(job.grid, job.points[q]) ] ],
                  boxes |-> [ q \in 1..Len(job.boxes) |-> SetToSeq(TilesOf(job.grid, job.boxes[q])) ] ])
Next == Point \/ Tell
Spec == Init /\ [][Next]_vars

P == job.points[k]
\* exactly one tile holds the point, among the tiles around it
OneTile == k > 0 => LET t == TileOf(job.grid, P) IN
             \A dx, dy \in -2..2 : Within(job.grid, << t[1] + dx, t[2] + dy >>, P) <=> (dx = 0 /\ dy = 0)
InRange == k > 0 => LET q == PixelOf(job.grid, P) IN q[1] \in 0..(job.grid.tw \div job.grid.res - 1) /\ q[2] \in 0..(job.grid.th \div job.grid.res - 1)
\* the grid covers its box
Covered == \A q \in 1..Len(job.boxes) : k > 0 /\ P[1] > job.boxes[q][1] /\ P[1] < job.boxes[q][3] /\ P[2] > job.boxes[q][2] /\ P[2] < job.boxes[q][4]
             => TileOf(job.grid, P) \in TilesOf(job.grid, job.boxes[q])
\* moving on by one tile moves the number by one and keeps the pixel
Translates == k > 0 => LET e == << P[1] + job.grid.tw, P[2] - job.grid.th >> IN
                 TileOf(job.grid, e) = << TileOf(job.grid, P)[1] + 1, TileOf(job.grid, P)[2] + 1 >> /\ PixelOf(job.grid, e) = PixelOf(job.grid, P)
=====================================================================
