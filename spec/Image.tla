------------------------------ MODULE Image ------------------------------
(* Image primitives on small grids.  Pixels are numbered row by row from 1; the image is a sequence.
   op "CCL"  8-connected components of the TRUE pixels, numbered by their first pixel in raster order
   op "OBJ"  components of at least r pixels, numbered likewise, with their sizes
   op "MAJ"  FALSE pixels with at least five TRUE neighbours become TRUE, all at once
   op "BUF"  pixels within r pixels of a TRUE pixel (pixels at most half a pixel further away may or may not count)
   op "DST"  distance to the next TRUE pixel, cut to whole pixels
   op "REC"  filling of local minima that do not touch the border of the image (8-connected)
   The primitives are run as the processes they are: labels spread, water sinks, pixels are visited in some order. *)
EXTENDS Emit

CONSTANTS NX, NY,           \* size of the exhaustive images (0: none)
          Ops,              \* operations for the exhaustive images
          Radii,
          InPlace           \* MAJ only: decide on the image as changed so far (what must not happen)
Jobs == IF "JOBS" \in DOMAIN IOEnv THEN InputsFrom("JOBS") ELSE <<>>

VARIABLES job,              \* [op, nx, ny, r, img]
          out,              \* result so far
          k,                \* number of labels / marker of the phase
          done
vars == << job, out, k, done >>

N == job.nx * job.ny
RowOf(p) == (p - 1) \div job.nx
ColOf(p) == (p - 1) % job.nx
At(i, j) == i * job.nx + j + 1
Nb(p) == { At(i, j) : i \in Max2(0, RowOf(p) - 1)..Min2(job.ny - 1, RowOf(p) + 1),
                      j \in Max2(0, ColOf(p) - 1)..Min2(job.nx - 1, ColOf(p) + 1) } \ {p}
Edge(p) == RowOf(p) \in {0, job.ny - 1} \/ ColOf(p) \in {0, job.nx - 1}
T(p) == job.img[p] # 0
D2(p, q) == (RowOf(p) - RowOf(q)) * (RowOf(p) - RowOf(q)) + (ColOf(p) - ColOf(q)) * (ColOf(p) - ColOf(q))
Trues == { p \in 1..N : T(p) }
RECURSIVE ISqrt(_, _)
ISqrt(d, g) == IF (g + 1) * (g + 1) > d THEN g ELSE ISqrt(d, g + 1)

Top == MaxSet({ job.img[p] : p \in 1..N })
Start(j) == /\ job = j /\ done = FALSE /\ k = 0
            /\ out = CASE job.op \in {"CCL", "OBJ"} -> [ p \in 1..N |-> 0 ]
                       [] job.op = "MAJ" -> job.img
                       [] job.op = "REC" -> LET m == Top IN [ p \in 1..N |-> IF Edge(p) THEN job.img[p] ELSE m ]
                       [] OTHER -> <<>>

Init == \/ \E i \in 1..Len(Jobs) : Start(Jobs[i])
        \/ /\ NX > 0
           /\ \E op \in Ops, img \in [ 1..(NX * NY) -> 0..1 ], r \in Radii :
                 /\ (op \in {"BUF", "OBJ"} \/ r = 1)
                 /\ Start([ op |-> op, nx |-> NX, ny |-> NY, r |-> r, img |-> img ])

\* -- labels
Fresh == { p \in Trues : out[p] = 0 }
Next8 == { p \in Fresh : \E q \in Nb(p) : out[q] = k }
Grow == /\ job.op \in {"CCL", "OBJ"} /\ k > 0 /\ Next8 # {}
        /\ out' = [ p \in 1..N |-> IF p \in Next8 THEN k ELSE out[p] ]
        /\ UNCHANGED << job, k, done >>
Seed == /\ job.op \in {"CCL", "OBJ"} /\ (k = 0 \/ Next8 = {}) /\ Fresh # {}
        /\ k' = k + 1 /\ out' = [ out EXCEPT ![MinSet(Fresh)] = k + 1 ]
        /\ UNCHANGED << job, done >>
Labelled == job.op \in {"CCL", "OBJ"} /\ Fresh = {}
Size(l) == Cardinality({ p \in 1..N : out[p] = l })
Kept == { l \in 1..k : Size(l) >= job.r }
Rank(l) == Cardinality({ m \in Kept : m <= l })

\* -- sinking water
Low(p) == Max2(job.img[p], MinSet({ out[q] : q \in Nb(p) \cup {p} }))
Level == job.op = "REC" /\ \A p \in 1..N : Edge(p) \/ Low(p) = out[p]
Sink == /\ job.op = "REC" /\ (Level = FALSE)
        /\ out' = [ p \in 1..N |-> IF Edge(p) THEN out[p] ELSE Low(p) ]
        /\ UNCHANGED << job, k, done >>

\* -- majority: k counts the visited pixels; with InPlace any order of visits is possible
Major(im, p) == im[p] # 0 \/ Cardinality({ q \in Nb(p) : im[q] # 0 }) >= 5
Defined == [ p \in 1..N |-> IF Major(job.img, p) THEN 1 ELSE 0 ]
Fill == /\ job.op = "MAJ" /\ ~ InPlace /\ k = 0 /\ k' = 1 /\ out' = Defined /\ UNCHANGED << job, done >>
Visit == /\ job.op = "MAJ" /\ InPlace /\ ~ done
         /\ \E p \in 1..N : /\ out[p] = 0 /\ Major(out, p) /\ out' = [ out EXCEPT ![p] = 1 ]
         /\ UNCHANGED << job, k, done >>

Ready == \/ Labelled \/ Level \/ job.op \in {"BUF", "DST"} \/ (job.op = "MAJ" /\ k = 1)
Result == CASE job.op = "CCL" -> [ n |-> k, out |-> out ]
            [] job.op = "OBJ" -> [ n |-> Cardinality(Kept), out |-> [ p \in 1..N |-> IF out[p] \in Kept THEN Rank(out[p]) ELSE 0 ],
                                   size |-> [ i \in 1..Cardinality(Kept) |-> Size(CHOOSE l \in Kept : Rank(l) = i) ] ]
            [] job.op = "BUF" -> [ n |-> 0, out |-> [ p \in 1..N |-> IF \E q \in Trues : D2(p, q) <= job.r * job.r THEN 1
                                                                    ELSE IF \E q \in Trues : 4 * D2(p, q) < (2 * job.r + 1) * (2 * job.r + 1) THEN 2 ELSE 0 ] ]
            [] job.op = "DST" -> [ n |-> 0, out |-> IF Trues = {} THEN <<>> ELSE [ p \in 1..N |-> ISqrt(MinSet({ D2(p, q) : q \in Trues }), 0) ] ]
            [] OTHER -> [ n |-> 0, out |-> out ]
Tell == /\ ~ done /\ (Ready = TRUE) /\ done' = TRUE
        /\ Emit([ op |-> job.op, nx |-> job.nx, ny |-> job.ny, r |-> job.r, img |-> job.img, res |-> Result ])
        /\ UNCHANGED << job, out, k >>

Next == Seed \/ Grow \/ Sink \/ Fill \/ Visit \/ Tell
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* labels only on TRUE pixels; touching pixels never have different labels; a label is never given up
LabelsOk == job.op \in {"CCL", "OBJ"} => \A p \in 1..N : /\ out[p] # 0 => T(p)
                                                        /\ \A q \in Nb(p) : out[p] # 0 /\ out[q] # 0 => out[p] = out[q]
\* labels are numbered by first pixels
InOrder == Labelled => \A l \in 1..k : \A m \in 1..(l - 1) : MinSet({ p \in 1..N : out[p] = m }) < MinSet({ p \in 1..N : out[p] = l })
\* water never sinks below the ground; at the end a pixel is at or below a level exactly if it drains to the border through ground at or below it
AboveGround == job.op = "REC" => \A p \in 1..N : out[p] >= job.img[p]
RECURSIVE Drain(_, _)
Drain(S, t) == LET M == S \cup { p \in 1..N : job.img[p] <= t /\ \E q \in Nb(p) : q \in S } IN IF M = S THEN S ELSE Drain(M, t)
Drained == Level => \A t \in { job.img[p] : p \in 1..N } : { p \in 1..N : out[p] <= t } = Drain({ p \in 1..N : Edge(p) /\ job.img[p] <= t }, t)
\* filling holes on the changing image depends on the order of visits: violated with InPlace
Snapshot == job.op = "MAJ" => \A p \in 1..N : out[p] # 0 => Major(job.img, p)
=====================================================================
