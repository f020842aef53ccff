------------------------------- MODULE Import -------------------------------
(* Importing rasters and vectors into a data cube. Positions are global pixels: pixel (0,0) is the upper left pixel of
   tile (0,0), pixels west and north of it are negative. A product of a name in a tile is a complete image of the tile.
   A raster that meets an existing product of its name fills in its own valid pixels.

   job: w, h (pixels per tile), inputs << [ name, kind = "raster", x0, y0, nx, ny, vals << row by row, -1 = nodata >> ] or
        [ name, kind = "vector", feats << [ x1, y1, x2, y2, val ] >> ] >>
   features are rectangles in quarters of a pixel (x1 < x2, y1 < y2, y to the south) or points (x1 = x2, y1 = y2) *)
EXTENDS Emit

Given == InputsFrom("IMPORTS")
Void == -1

VARIABLES i, job, n, cube, told
vars == << i, job, n, cube, told >>

TileOf(p) == << FloorDiv(p[1], job.w), FloorDiv(p[2], job.h) >>
PosOf(p) == (p[2] % job.h) * job.w + (p[1] % job.w) + 1
Global(t, q) == << t[1] * job.w + ((q - 1) % job.w), t[2] * job.h + ((q - 1) \div job.w) >>

\* centre of global pixel p in quarters of a pixel; a point belongs to the pixel that holds it
CentreIn(p, f) == 4 * p[1] + 2 > f.x1 /\ 4 * p[1] + 2 < f.x2 /\ 4 * p[2] + 2 > f.y1 /\ 4 * p[2] + 2 < f.y2
HoldsPoint(p, f) == f.x1 \div 4 = p[1] /\ f.y1 \div 4 = p[2]
Covers(p, f) == IF f.x1 = f.x2 /\ f.y1 = f.y2 THEN HoldsPoint(p, f) ELSE CentreIn(p, f)

RECURSIVE LastCover(_, _, _)
LastCover(p, fs, m) == IF m = 0 THEN Void ELSE IF Covers(p, fs[m]) THEN fs[m].val ELSE LastCover(p, fs, m - 1)
ValueAt(inp, p) ==
  IF inp.kind = "raster"
  THEN LET x == p[1] - inp.x0  y == p[2] - inp.y0 IN
       IF x >= 0 /\ x < inp.nx /\ y >= 0 /\ y < inp.ny THEN inp.vals[y * inp.nx + x + 1] ELSE Void
  ELSE LastCover(p, inp.feats, Len(inp.feats))
\* tiles touched by the bounding box
Box(inp) == IF inp.kind = "raster" THEN << inp.x0, inp.y0, inp.x0 + inp.nx - 1, inp.y0 + inp.ny - 1 >>
            ELSE LET Fs == { inp.feats[m] : m \in 1..Len(inp.feats) } IN
                 << MinSet({ f.x1 : f \in Fs }) \div 4, MinSet({ f.y1 : f \in Fs }) \div 4,
                    MaxSet({ f.x2 : f \in Fs }) \div 4, MaxSet({ f.y2 : f \in Fs }) \div 4 >>
Touched(inp) == LET b == Box(inp) a == TileOf(<< b[1], b[2] >>) z == TileOf(<< b[3], b[4] >>) IN (a[1]..z[1]) \X (a[2]..z[2])
Empty(a) == \A q \in DOMAIN a : a[q] = Void

Init == i \in 1..Len(Given) /\ job = Given[i] /\ n = 0 /\ cube = << >> /\ told = FALSE

New(inp, t) == [ q \in 1..(job.w * job.h) |-> ValueAt(inp, Global(t, q)) ]
Merged(old, new) == [ q \in DOMAIN new |-> IF new[q] = Void THEN old[q] ELSE new[q] ]
Import == /\ n < Len(job.inputs) /\ n' = n + 1
          /\ LET inp == job.inputs[n + 1]
                 fresh == [ t \in Touched(inp) |-> New(inp, t) ]
                 kept == { t \in Touched(inp) : ~ Empty(fresh[t]) }
                 keys == { << inp.name, t >> : t \in kept }
             IN cube' = [ key \in DOMAIN cube \cup keys |->
                            IF key \notin keys THEN cube[key]
                            ELSE IF key \in DOMAIN cube THEN Merged(cube[key], fresh[key[2]]) ELSE fresh[key[2]] ]
          /\ UNCHANGED << i, job, told >>
Tell == /\ n = Len(job.inputs) /\ ~ told /\ told' = TRUE /\ UNCHANGED << i, job, n, cube >>
        /\ Emit([ i |-> i, products |-> { << key[1], key[2], cube[key] >> : key \in DOMAIN cube } ])
Next == Import \/ Tell
Spec == Init /\ [][Next]_vars

\* each valid pixel of the input just imported shows up in its own tile and place, and no product is empty
Placed == n > 0 => LET inp == job.inputs[n] IN inp.kind = "raster" =>
            \A x \in 0..(inp.nx - 1), y \in 0..(inp.ny - 1) :
               LET p == << inp.x0 + x, inp.y0 + y >>  v == inp.vals[y * inp.nx + x + 1]  key == << inp.name, TileOf(p) >> IN
               v # Void => key \in DOMAIN cube /\ cube[key][PosOf(p)] = v
NoEmpty == \A key \in DOMAIN cube : ~ Empty(cube[key])
\* an import adds valid pixels and never removes one; other names are not touched
Grows == [][ DOMAIN cube \subseteq DOMAIN cube' /\ \A key \in DOMAIN cube :
               /\ \A q \in DOMAIN cube[key] : cube[key][q] # Void => cube'[key][q] # Void
               /\ (n' # n /\ key[1] # job.inputs[n'].name) => cube'[key] = cube[key] ]_vars
=====================================================================
