------------------------------- MODULE Sampling -------------------------------
(* The sampling module: processing units (tile, chunk) are visited one after the other; each consumes the sample points
   that lie in it and appends one line per usable point to the feature, response and coordinate tables.

   Positions are integers in Sub parts of a pixel, counted from the origin of the grid to the east and to the south.
   job: ncol, nrow (pixels per tile), crow, ccol (pixels per chunk), tiles << <<x, y>> >> that are processed and hold all
        features, sub, points << <<x, y>> >>, exclude, holes << <<tx, ty, col, row>> >> (pixels with a missing feature),
        masked << <<tx, ty, col, row>> >> *)
EXTENDS Emit
Given == InputsFrom("JOBS")
Elems(s) == { s[q] : q \in 1..Len(s) }

TileOf(j, p) == << FloorDiv(p[1], j.ncol * j.sub), FloorDiv(p[2], j.nrow * j.sub) >>
PixelOf(j, p) == << (p[1] % (j.ncol * j.sub)) \div j.sub, (p[2] % (j.nrow * j.sub)) \div j.sub >>
OnBorder(j, p) == p[1] % j.sub = 0 \/ p[2] % j.sub = 0
At(j, p) == TileOf(j, p) \o PixelOf(j, p)

Units(j) == LET nx == (j.ncol + j.ccol - 1) \div j.ccol  ny == (j.nrow + j.crow - 1) \div j.crow
            IN [ k \in 1..(Len(j.tiles) * nx * ny) |->
                  [ tile |-> j.tiles[((k - 1) \div (nx * ny)) + 1], cx |-> ((k - 1) % (nx * ny)) % nx, cy |-> ((k - 1) % (nx * ny)) \div nx ] ]
Within(j, u, p) == /\ TileOf(j, p) = u.tile /\ PixelOf(j, p)[1] \div j.ccol = u.cx /\ PixelOf(j, p)[2] \div j.crow = u.cy

VARIABLES i, job, k, active, lines
\* active: points not consumed yet; lines: sequence of << point, tile x, tile y, col, row >>
vars == << i, job, k, active, lines >>
Init == i \in 1..Len(Given) /\ job = Given[i] /\ k = 0 /\ active = 1..Len(job.points) /\ lines = << >>

Usable(p) == LET a == At(job, job.points[p]) IN a \notin Elems(job.masked) /\ (job.exclude => a \notin Elems(job.holes))
RECURSIVE Lines(_, _)
Lines(S, acc) == IF S = {} THEN acc ELSE LET p == CHOOSE x \in S : \A y \in S : x <= y
                                         IN Lines(S \ { p }, Append(acc, << p >> \o At(job, job.points[p])))
Total == Len(Units(job))
Visit == /\ k < Total /\ k' = k + 1
         /\ LET u == Units(job)[k + 1]  here == { p \in active : Within(job, u, job.points[p]) }
                take == { p \in here : Usable(p) }
            IN active' = active \ here /\ lines' = Lines(take, lines)
         /\ UNCHANGED << i, job >>
Tell == /\ k = Total /\ k' = k + 1 /\ UNCHANGED << i, job, active, lines >> /\ Emit([ i |-> i, lines |-> lines ])
Next == Visit \/ Tell
Spec == Init /\ [][Next]_vars

\* every point at most once; at the end exactly the usable points in processed tiles
Once == \A a, b \in 1..Len(lines) : a # b => lines[a][1] # lines[b][1]
Exactly == k >= Total => { lines[a][1] : a \in 1..Len(lines) }
             = { p \in 1..Len(job.points) : TileOf(job, job.points[p]) \in Elems(job.tiles) /\ Usable(p) }
=====================================================================
