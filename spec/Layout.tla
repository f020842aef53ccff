------------------------------- MODULE Layout -------------------------------
(* Where the bands of the products of a data cube go. A product of a tile is a sequence of bands; layout options decide
   whether it is one file or one file per band, in the tile directory or in a directory of the product, and which
   extension the files have. They decide nothing else.

   job: tiles << << x, y >> >>, ox, oy (upper left corner of tile 0,0), res, nx, ny, products << [name, base, bands, tile] >>,
        explode, sub, ext; together: products that stay one file *)
EXTENDS Emit
CONSTANT Way      \* "ok", "noname": files of single bands are not told apart, "flat": products are not told apart (both refuted)
Jobs == InputsFrom("JOBS")

VARIABLES j, job, p, b, files
vars == << j, job, p, b, files >>
Init == j \in 1..Len(Jobs) /\ job = Jobs[j] /\ p = 1 /\ b = 1 /\ files = << >>

Busy == p <= Len(job.products)
Prod == job.products[p]
Single == job.explode = 1 /\ \A k \in 1..Len(job.together) : job.together[k] # Prod.name
Dir == job.tiles[Prod.tile][3] \o "/" \o (IF job.sub = 1 THEN Prod.name \o "/" ELSE "")
Stem == (IF Way = "flat" THEN "product" ELSE Prod.base) \o (IF Single /\ Way # "noname" THEN "_" \o Prod.bands[b] ELSE "")
Path == Dir \o Stem \o "." \o job.ext
T == job.tiles[Prod.tile]
\* << tile, product, band >> is what a position of a file holds
Item == << Prod.tile, Prod.name, Prod.base, Prod.bands[b] >>
Write ==
  /\ Busy
  /\ files' = IF \E k \in DOMAIN files : k = Path THEN [ files EXCEPT ![Path] = [ @ EXCEPT !.items = IF Single THEN << Item >> ELSE Append(@, Item) ] ]
              ELSE [ k \in DOMAIN files \cup { Path } |-> IF k = Path
                       THEN [ items |-> << Item >>, ulx |-> job.ox + T[1] * job.nx * job.res, uly |-> job.oy - T[2] * job.ny * job.res, nx |-> job.nx, ny |-> job.ny ]
                       ELSE files[k] ]
  /\ IF b < Len(Prod.bands) THEN b' = b + 1 /\ UNCHANGED p ELSE b' = 1 /\ p' = p + 1
  /\ UNCHANGED << j, job >>
Out == LET s == SetToSeq(DOMAIN files') IN [ k \in 1..Len(s) |-> [ path |-> s[k], f |-> files'[s[k]] ] ]
Next == /\ Write
        /\ (p' > Len(job.products) => Emit([ id |-> job.id, files |-> Out ]))
Spec == Init /\ [][Next]_vars

Written == UNION { { << q, k >> : k \in 1..(IF q < p THEN Len(job.products[q].bands) ELSE b - 1) } : q \in 1..Min2(p, Len(job.products)) }
ItemOf(w) == << job.products[w[1]].tile, job.products[w[1]].name, job.products[w[1]].base, job.products[w[1]].bands[w[2]] >>
\* every band is in exactly one place, files hold the bands of one product in their order
EachBandOnce == \A w \in Written : Cardinality({ << k, n >> \in { << k, n >> \in (DOMAIN files) \X (1..60) : n <= Len(files[k].items) } : files[k].items[n] = ItemOf(w) }) = 1
OneProduct == \A k \in DOMAIN files : \A n \in 1..Len(files[k].items) : SubSeq(files[k].items[n], 1, 3) = SubSeq(files[k].items[1], 1, 3)
Done == ~Busy => EachBandOnce
=====================================================================
