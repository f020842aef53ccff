------------------------------- MODULE Provenance -------------------------------
(* What runs of higher-level processing add to the provenance table. Runs follow each other into the same output and the
   same table. A run visits the chunks of its tiles one after the other; a chunk is skipped if the mask leaves no pixel of
   it or if the tile has no input. The first chunk that is written starts the files of the tile and adds one line per
   file; later chunks only add data.

   job: runs << [nc, out, tiles << [name, files, mask << 0/1 per chunk >>, src << [id, sel 0/1] >> ] >>] >>
   files: what a run writes into the tile if it writes anything; out: which output directory *)
EXTENDS Emit
CONSTANT Way    \* "first", or "corner": only the first chunk of a tile adds the lines (refuted)
Jobs == InputsFrom("JOBS")
VARIABLES j, job, r, t, c, started, lines
vars == << j, job, r, t, c, started, lines >>
Init == j \in 1..Len(Jobs) /\ job = Jobs[j] /\ r = 1 /\ t = 1 /\ c = 1 /\ started = {} /\ lines = << >>

Run == job.runs[r]
Tile == Run.tiles[t]
Selected == { s.id : s \in { Tile.src[k] : k \in { k \in 1..Len(Tile.src) : Tile.src[k].sel = 1 } } }
Process == Tile.mask[c] = 1 /\ Selected # {}
\* lines of one step have no order among each other
New == { f \in { Tile.files[k] : k \in 1..Len(Tile.files) } : << r, t, f >> \notin started }
NewLines == { [ run |-> r, out |-> Run.out, tile |-> Tile.name, file |-> f, src |-> Selected, mode |-> "create" ] : f \in New }
LineSets(l) == IF NewLines = {} THEN l ELSE Append(l, NewLines)
Busy == r <= Len(job.runs)
Visit == /\ Busy /\ Process /\ (Way = "first" \/ c = 1)
         /\ started' = started \cup { << r, t, f >> : f \in New } /\ lines' = LineSets(lines)
Skip == Busy /\ ~(Process /\ (Way = "first" \/ c = 1)) /\ UNCHANGED << started, lines >>
Advance == /\ IF c < Run.nc THEN c' = c + 1 /\ UNCHANGED << r, t >>
              ELSE c' = 1 /\ (IF t < Len(Run.tiles) THEN t' = t + 1 /\ UNCHANGED r ELSE t' = 1 /\ r' = r + 1)
           /\ UNCHANGED << j, job >>
Next == /\ (Visit \/ Skip) /\ Advance
        /\ (r' > Len(job.runs) => Emit([ id |-> job.id, lines |-> lines' ]))
Spec == Init /\ [][Next]_vars

All == UNION { lines[k] : k \in 1..Len(lines) }
\* one line per run and file, and none for files that were not written
OncePerFile == \A a, b \in All : a.run = b.run /\ a.tile = b.tile /\ a.file = b.file => a = b
\* every tile with something to do is named
NothingMissing == \A k \in 1..(r - 1) : \A q \in 1..Len(job.runs[k].tiles) :
    LET x == job.runs[k].tiles[q] IN
    (\E m \in 1..Len(x.mask) : x.mask[m] = 1) /\ (\E s \in 1..Len(x.src) : x.src[s].sel = 1)
        => \A f \in 1..Len(x.files) : \E l \in All : l.run = k /\ l.tile = x.name /\ l.file = x.files[f]
=====================================================================
