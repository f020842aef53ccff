------------------------------- MODULE Mosaic -------------------------------
(* Mosaics and virtual copies of a data cube. State: which products every tile holds, the mosaics, the virtual copies.
   Actions follow a given history: a product is added to or removed from a tile, mosaics are made, a virtual copy is made
   with a pattern.

   job: tiles << <<x, y>> >>, names << name >>, start << <<tile, name>> >> (indices), steps << step >>
   step: [ op |-> "add" | "remove" | "mosaic" | "virtual", tile, name, match << name >>, over (0/1) ] *)
EXTENDS Emit
Given == InputsFrom("JOBS")
Elems(s) == { s[q] : q \in 1..Len(s) }

VARIABLES i, job, k, holds, mosaics, copies
\* holds: set of << tile, name >>; mosaics: name -> tiles when it was made; copies: << tile, name, made in step >>
vars == << i, job, k, holds, mosaics, copies >>
Init == /\ i \in 1..Len(Given) /\ job = Given[i] /\ k = 0 /\ holds = Elems(job.start)
        /\ mosaics = [ n \in 1..Len(job.names) |-> {} ] /\ copies = {}

TilesOf(n) == { h[1] : h \in { g \in holds : g[2] = n } }
\* the mosaic covers the tiles of its product and all between them
Box(S) == LET X == { job.tiles[t][1] : t \in S }  Y == { job.tiles[t][2] : t \in S } IN << MinSet(X), MinSet(Y), MaxSet(X), MaxSet(Y) >>
St == job.steps[k + 1]
Step == /\ k < Len(job.steps) /\ k' = k + 1 /\ UNCHANGED << i, job >>
        /\ holds' = IF St.op = "add" THEN holds \cup { << St.tile, St.name >> }
                    ELSE IF St.op = "remove" THEN holds \ { << St.tile, St.name >> } ELSE holds
        \* products without any tile keep an older mosaic
        /\ mosaics' = IF St.op # "mosaic" THEN mosaics ELSE [ n \in 1..Len(job.names) |-> IF TilesOf(n) = {} THEN mosaics[n] ELSE TilesOf(n) ]
        /\ copies' = IF St.op # "virtual" THEN copies
                     ELSE LET want == { h \in holds : h[2] \in Elems(St.match) }
                              old == { c \in copies : << c[1], c[2] >> \in want /\ St.over = 0 }
                              kept == { << c[1], c[2] >> : c \in old }
                          IN { c \in copies : << c[1], c[2] >> \notin want } \cup old \cup { << h[1], h[2], k + 1 >> : h \in want \ kept }
        /\ (St.op \in { "mosaic", "virtual" } =>
             Emit([ i |-> i, step |-> k + 1,
                    mosaics |-> [ n \in 1..Len(job.names) |-> [ tiles |-> SetToSeq(mosaics'[n]), box |-> IF mosaics'[n] = {} THEN << >> ELSE Box(mosaics'[n]) ] ],
                    copies |-> SetToSeq(copies') ]))
Spec == Init /\ [][Step]_vars

\* a mosaic made now holds all tiles of its product and nothing else
Fresh == k > 0 /\ job.steps[k].op = "mosaic" => \A n \in 1..Len(job.names) : TilesOf(n) # {} => mosaics[n] = TilesOf(n)
Single == \A a, b \in copies : a # b => << a[1], a[2] >> # << b[1], b[2] >>
=====================================================================
