------------------------- MODULE Plugin -------------------------
(* Plug-ins.  The tile is processed in blocks of rows.  A pixel plug-in is called once per pixel with the series of that pixel, a block
   plug-in once per block with all its pixels.  What arrives is one value per selected observation and band (main bands, then one per
   auxiliary product), nodata where the observation was screened or the pixel is masked.  What the plug-in leaves in its output is
   stored in the same pixel, one band per name it declared; bands it does not touch are nodata, and so are masked
   pixels of pixel plug-ins (nothing is said about what block plug-ins do there).
   The programs known here are those of the harness. *)
EXTENDS Emit, Integers, Sequences, SequencesExt
Nodata == -9999
Jobs == InputsFrom("JOBS")   \* [ id, kind, nx, ny, blockRows, mask: 0/1 per pixel or << >>, bands: how many per observation, outs: names of programs,
                             \*   obs: sequence (by date) of [ day, use: per pixel, v: per band per pixel ] ]
VARIABLES k, job, block, given, result
vars == << k, job, block, given, result >>
Masked(j, p) == Len(j.mask) > 0 /\ j.mask[p] # 1
\* what is handed over for pixel p: one row of bands per observation
Series(j, p) == [ t \in 1..Len(j.obs) |-> [ b \in 1..j.bands |-> IF Masked(j, p) \/ ~ j.obs[t].use[p] THEN Nodata ELSE j.obs[t].v[b][p] ] ]
Blocks(j) == (j.ny + j.blockRows - 1) \div j.blockRows
PixelsOf(j, n) == [ i \in 1..(IF n * j.blockRows > j.ny THEN (j.ny - (n - 1) * j.blockRows) ELSE j.blockRows) * j.nx |-> (n - 1) * j.blockRows * j.nx + i ]

\* the programs; s is the series of the pixel, i its position in its block (from 0), left the series of the pixel to the left in the block
Valid(s) == FoldSeq(LAMBDA r, acc : acc + Len(SelectSeq(r, LAMBDA x : x # Nodata)), 0, s)
Sum(s) == FoldLeftDomain(LAMBDA acc, t : FoldLeftDomain(LAMBDA a2, b : IF s[t][b] = Nodata THEN a2 ELSE (a2 + t * b * s[t][b]) % 10007, acc, s[t]), 0, s)
LastDay(j, s) == LET ok == SelectSeq([ t \in 1..Len(s) |-> t ], LAMBDA t : s[t][1] # Nodata) IN IF ok = << >> THEN Nodata ELSE j.obs[ok[Len(ok)]].day
Program(j, name, s, i, left) ==
  CASE name = "valid" -> Valid(s)
    [] name = "sum" -> Sum(s)
    [] name = "lastday" -> LastDay(j, s)
    [] name = "echo" -> s[Len(s)][j.bands]
    [] name = "constant" -> 77
    [] name = "place" -> i                                               \* blocks only
    [] name = "left" -> IF i % j.nx = 0 THEN Nodata ELSE left[1][1]      \* blocks only
    [] OTHER -> Nodata                                                   \* the plug-in does not touch this band

Init == k = 1 /\ job = Jobs[1] /\ block = 0 /\ given = << >> /\ result = << >>
\* one block after the other; given and result grow
Process == /\ block < Blocks(job) /\ block' = block + 1
           /\ LET px == PixelsOf(job, block')
                  s == [ i \in 1..Len(px) |-> Series(job, px[i]) ]
                  out(i) == [ o \in 1..Len(job.outs) |-> IF Masked(job, px[i]) THEN Nodata ELSE Program(job, job.outs[o], s[i], i - 1, IF i = 1 THEN s[1] ELSE s[i - 1]) ]
              IN given' = given \o s /\ result' = result \o [ i \in 1..Len(px) |-> out(i) ]
           /\ UNCHANGED << k, job >>
Finish == /\ block = Blocks(job) /\ Emit([ id |-> job.id, given |-> given, result |-> result ])
          /\ k' = k + 1 /\ k' <= Len(Jobs) + 1
          /\ (IF k < Len(Jobs) THEN job' = Jobs[k'] /\ block' = 0 /\ given' = << >> /\ result' = << >> ELSE UNCHANGED << job, result, given >> /\ block' = -1)
Next == block >= 0 /\ (Process \/ Finish)
Spec == Init /\ [][Next]_vars
\* programs that look at a single pixel do not notice the blocks; every pixel is handed over exactly once
Complete == block = Blocks(job) => Len(given) = job.nx * job.ny
PixelWise == block = Blocks(job) => \A p \in 1..Len(given) : \A o \in 1..Len(job.outs) :
               (job.outs[o] \notin { "place", "left" } /\ ~ Masked(job, p)) => result[p][o] = Program(job, job.outs[o], Series(job, p), 0, << >>)
NothingScreened == \A p \in 1..Len(given) : \A t \in 1..Len(given[p]) : given[p][t][1] # Nodata      \* violated: screening happens
=====================================================================
