------------------------------- MODULE Landscape -------------------------------
(* Landscape metrics. A chunk of the data cube is seen together with a margin as wide as the kernel radius: its window.
   The cells of the window that fulfil the query form patches (8 neighbours); patches below the minimum size are dropped.
   Patches grow step by step: each step hands the labels on to the neighbours until nothing changes. The metrics of a
   cell are those of the patch cells within its kernel. *)
EXTENDS Integers, Sequences, FiniteSets, Emit

Jobs == InputsFrom("JOBS")
(* [ id, w, h: size of a tile, tiles: sequence of <<x, y>>, rows: values of the mosaic, nodata, r: radius, shape: "CIRCLE" or
     "SQUARE", query, limit, min: minimum size, all: also for cells outside patches, exclude, mask: rows of 0/1 or empty,
     y0, x0, ny, nx: the chunk ] *)
VARIABLES k, job, lab, stage
vars == << k, job, lab, stage >>

InCube(j, y, x) == y \in 1..Len(j.rows) /\ x \in 1..Len(j.rows[1])
                   /\ \E t \in 1..Len(j.tiles) : j.tiles[t] = << (x - 1) \div j.w, (y - 1) \div j.h >>
At(j, y, x) == IF InCube(j, y, x) THEN j.rows[y][x] ELSE j.nodata
Masked(j, y, x) == Len(j.mask) > 0 /\ ~ (InCube(j, y, x) /\ j.mask[y][x] = 1)
Fulfils(j, v) == CASE j.query = "EQ" -> v = j.limit [] j.query = "GT" -> v > j.limit [] j.query = "GE" -> v >= j.limit
                   [] j.query = "LT" -> v < j.limit [] j.query = "LE" -> v <= j.limit
Used(j, y, x) == ~ Masked(j, y, x) /\ ~ (j.exclude /\ At(j, y, x) = j.nodata)
Ys(j) == (j.y0 - j.r)..(j.y0 + j.ny - 1 + j.r)
Xs(j) == (j.x0 - j.r)..(j.x0 + j.nx - 1 + j.r)
Number(j, y, x) == (y - j.y0 + j.r) * (j.nx + 2 * j.r) + (x - j.x0 + j.r) + 1
Start(j) == [ y \in Ys(j) |-> [ x \in Xs(j) |-> IF Used(j, y, x) /\ Fulfils(j, At(j, y, x)) THEN Number(j, y, x) ELSE 0 ] ]

Near(y, x) == { << y + dy, x + dx >> : dy \in -1..1, dx \in -1..1 } \cap (Ys(job) \X Xs(job))
Spread == [ y \in Ys(job) |-> [ x \in Xs(job) |-> IF lab[y][x] = 0 THEN 0 ELSE MaxSet({ lab[c[1]][c[2]] : c \in Near(y, x) }) ] ]
SizeOf(l) == Cardinality({ c \in Ys(job) \X Xs(job) : lab[c[1]][c[2]] = l })
Labels == { lab[c[1]][c[2]] : c \in Ys(job) \X Xs(job) } \ { 0 }
DropSmall == LET small == { l \in Labels : SizeOf(l) < job.min }
             IN [ y \in Ys(job) |-> [ x \in Xs(job) |-> IF lab[y][x] \in small THEN 0 ELSE lab[y][x] ] ]

\* the patch cells within the kernel of a cell
Kernel == { d \in (-job.r..job.r) \X (-job.r..job.r) : job.shape = "SQUARE" \/ d[1] * d[1] + d[2] * d[2] <= job.r * job.r }
Within(y, x) == { d \in Kernel : lab[y + d[1]][x + d[2]] # 0 }
\* sides that such a cell has in common with a cell outside of patches, within the square around the kernel
Sides(y, x, d) == Cardinality({ s \in { << 1, 0 >>, << -1, 0 >>, << 0, 1 >>, << 0, -1 >> } :
                     /\ d[1] + s[1] \in -job.r..job.r /\ d[2] + s[2] \in -job.r..job.r /\ lab[y + d[1] + s[1]][x + d[2] + s[2]] = 0 })
RECURSIVE SumSides(_, _, _)
SumSides(y, x, D) == IF D = {} THEN 0 ELSE LET d == CHOOSE e \in D : TRUE IN Sides(y, x, d) + SumSides(y, x, D \ { d })
Cell(y, x) ==
  IF ~ Used(job, y, x) \/ (lab[y][x] = 0 /\ ~ job.all) THEN << >>
  ELSE LET D == Within(y, x)
           ls == SetToSeq({ lab[y + d[1]][x + d[2]] : d \in D })
           of(l) == { d \in D : lab[y + d[1]][x + d[2]] = l }
           ds == SetToSeq({ d \in D : At(job, y + d[1], x + d[2]) # job.nodata })
       IN << [ id |-> lab[y][x], vals |-> [ i \in 1..Len(ds) |-> At(job, y + ds[i][1], x + ds[i][2]) ],
               area |-> [ i \in 1..Len(ls) |-> Cardinality(of(ls[i])) ], edge |-> [ i \in 1..Len(ls) |-> SumSides(y, x, of(ls[i])) ] ] >>
Result == [ id |-> job.id, any |-> Labels # {}, cells |-> [ y \in 1..job.ny |-> [ x \in 1..job.nx |-> Cell(job.y0 + y - 1, job.x0 + x - 1) ] ] ]

Init == k = 0 /\ job = << >> /\ lab = << >> /\ stage = "next"
Take == stage = "next" /\ k < Len(Jobs) /\ k' = k + 1 /\ job' = Jobs[k + 1] /\ lab' = Start(job') /\ stage' = "grow"
Grow == stage = "grow" /\ lab' = Spread /\ stage' = (IF lab' = lab THEN "drop" ELSE "grow") /\ UNCHANGED << k, job >>
Drop == stage = "drop" /\ lab' = DropSmall /\ stage' = "tell" /\ UNCHANGED << k, job >>
Tell == stage = "tell" /\ Emit(Result) /\ stage' = "next" /\ UNCHANGED << k, job, lab >>
Next == Take \/ Grow \/ Drop \/ Tell
Spec == Init /\ [][Next]_vars

\* neighbouring patch cells are in one patch, patches are large enough
OnePatch == stage \in { "drop", "tell" } => \A y \in Ys(job) : \A x \in Xs(job) : lab[y][x] # 0 =>
               \A c \in Near(y, x) : lab[c[1]][c[2]] \in { 0, lab[y][x] }
LargeEnough == stage = "tell" => \A l \in Labels : SizeOf(l) >= job.min
=====================================================================
