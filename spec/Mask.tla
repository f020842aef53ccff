------------------------------- MODULE Mask -------------------------------
(* Processing masks. A tile is worked on chunk by chunk: a chunk whose mask holds no pixel of value 1 is skipped, any
   other chunk is computed; the product file appears with the first computed chunk and starts out as nodata. A tile
   without a mask file is left out.

   job: cols, rows (chunks per tile), cw, ch (size of a chunk), mask << values, row by row >> or << >> (no mask file) *)
EXTENDS Emit

Given == InputsFrom("MASKS")
CONSTANT Exhaust                            \* TRUE: 2 x 2 chunks of 2 x 2 pixels with all combinations of patterns
Patterns == << << 0, 0, 0, 0 >>, << 1, 1, 1, 1 >>, << 0, 1, 2, 255 >>, << 2, 255, 3, 0 >> >>

\* pixel p (1..) of a job lies in chunk ChunkOf (1..)
Width(j) == j.cols * j.cw
ChunkOf(j, p) == LET x == (p - 1) % Width(j)  y == (p - 1) \div Width(j) IN (y \div j.ch) * j.cols + (x \div j.cw) + 1
PosIn(j, p) == LET x == (p - 1) % Width(j)  y == (p - 1) \div Width(j) IN (y % j.ch) * j.cw + (x % j.cw) + 1
Pixels(j) == 1..(j.cols * j.rows * j.cw * j.ch)

Small == [ cols |-> 2, rows |-> 2, cw |-> 2, ch |-> 2, mask |-> <<>> ]
WithPatterns(f) == [ Small EXCEPT !.mask = [ p \in Pixels(Small) |-> Patterns[f[ChunkOf(Small, p)]][PosIn(Small, p)] ] ]
Jobs == IF Exhaust THEN { WithPatterns(f) : f \in [ 1..4 -> 1..4 ] } ELSE { Given[i] : i \in 1..Len(Given) }

VARIABLES job, chunk, file, done
vars == << job, chunk, file, done >>

Init == job \in Jobs /\ chunk = 1 /\ file = <<>> /\ done = FALSE

HasMask == job.mask # <<>>
Active(k) == \E p \in Pixels(job) : job.mask[p] = 1 /\ ChunkOf(job, p) = k
AllSeen == chunk > job.cols * job.rows

NoMask == /\ ~ HasMask /\ ~ done
          /\ done' = TRUE /\ UNCHANGED << job, chunk, file >>
          /\ Emit([ job |-> job, file |-> file ])
Skip == /\ HasMask /\ ~ AllSeen /\ ~ Active(chunk)
        /\ chunk' = chunk + 1 /\ UNCHANGED << job, file, done >>
Compute == /\ HasMask /\ ~ AllSeen /\ Active(chunk)
           /\ file' = [ p \in Pixels(job) |-> IF job.mask[p] = 1 /\ ChunkOf(job, p) = chunk THEN 1
                                               ELSE IF file = <<>> THEN 0 ELSE file[p] ]
           /\ chunk' = chunk + 1 /\ UNCHANGED << job, done >>
Finish == /\ HasMask /\ AllSeen /\ ~ done
          /\ done' = TRUE /\ UNCHANGED << job, chunk, file >>
          /\ Emit([ job |-> job, file |-> file ])
Next == NoMask \/ Skip \/ Compute \/ Finish
Spec == Init /\ [][Next]_vars

\* in the end the file shows values exactly where the mask is 1, whatever the chunks; there is no file without such a pixel
Exactly == (done /\ HasMask) => IF \A p \in Pixels(job) : job.mask[p] # 1 THEN file = <<>>
                                ELSE \A p \in Pixels(job) : (file[p] = 1) <=> (job.mask[p] = 1)
NoFile == (done /\ ~ HasMask) => file = <<>>
\* nothing is ever taken back
Monotone == [][ file # <<>> => \A p \in Pixels(job) : file[p] = 1 => file'[p] = 1 ]_vars
=====================================================================
