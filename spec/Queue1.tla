------------------------------- MODULE Queue1 -------------------------------
(* The Level 1 downloader. A search selects scenes of a catalogue; selected scenes that are not on disk are downloaded one
   after the other in any order; each finished download is appended to the queue. A failed download leaves nothing or an
   unfinished directory behind and nothing in the queue.

   job:   scenes << scene >>, runs << run >>, disk << "absent" | "partial" | "complete" >> (at the start, per scene)
   scene: tile, sensor, date, cloud (in 1/100 percent), when (number of the acquisition: same tile and time), proc (rank of its
          processing), logged (0/1: a Level 2 log of it exists)
   run:   tiles << >>, sensors << >>, from, to, clow, chigh, dry (0/1), logs (0/1), ok (0/1: exit status),
          calls << << scene, "ok" | "none" | "partial" >> >> (recorded), queued << scene >> (recorded: new lines in order) *)
EXTENDS Emit
Given == InputsFrom("JOBS")
Elems(s) == { s[q] : q \in 1..Len(s) }

VARIABLES i, job, r, c, disk, queue, why
\* r: run, c: call within the run; queue: scenes appended by this run
vars == << i, job, r, c, disk, queue, why >>
Init == /\ i \in 1..Len(Given) /\ job = Given[i] /\ r = 1 /\ c = 0 /\ disk = Given[i].disk /\ queue = << >> /\ why = ""

Run == job.runs[r]
Fits(s) == LET x == job.scenes[s] IN
             /\ x.tile \in Elems(Run.tiles) /\ x.sensor \in Elems(Run.sensors) /\ x.date >= Run.from /\ x.date <= Run.to
             /\ x.cloud >= Run.clow /\ x.cloud <= Run.chigh
\* of several processings of one acquisition only the latest
Latest(s, S) == ~ \E t \in S : job.scenes[t].when = job.scenes[s].when /\ job.scenes[t].proc > job.scenes[s].proc
Found == LET S == { s \in 1..Len(job.scenes) : Fits(s) } IN { s \in S : Latest(s, S) }
Selected == { s \in Found : ~ (Run.logs = 1 /\ job.scenes[s].logged = 1) }
Open == { s \in Selected : disk[s] # "complete" }

Call == Run.calls[c + 1]
Wrong == IF Run.dry = 1 THEN "download although nothing was to be done"
         ELSE IF Call[1] \notin Found THEN "a scene that does not fulfil the filters is downloaded"
         ELSE IF Call[1] \notin Selected THEN "a scene with a log is downloaded"
         ELSE IF disk[Call[1]] = "complete" THEN "a scene that is present is downloaded" ELSE ""
Download == /\ why = "" /\ r <= Len(job.runs) /\ c < Len(Run.calls) /\ c' = c + 1 /\ why' = Wrong
            /\ disk' = [ disk EXCEPT ![Call[1]] = IF Call[2] = "ok" THEN "complete" ELSE IF Call[2] = "partial" THEN "partial" ELSE @ ]
            /\ queue' = IF Call[2] = "ok" THEN Append(queue, Call[1]) ELSE queue
            /\ UNCHANGED << i, job, r >>
Failed == \E q \in 1..Len(Run.calls) : Run.calls[q][2] # "ok"
Judge == IF Run.queued # queue THEN "the queue does not list the downloads once each"
         ELSE IF Run.ok = 1 /\ Run.dry = 0 /\ Open # {} THEN "selected scenes are missing although all is well"
         ELSE IF Run.ok = 0 /\ ~ Failed THEN "failed for no reason" ELSE ""
Finish == /\ why = "" /\ r <= Len(job.runs) /\ c = Len(Run.calls) /\ why' = Judge /\ r' = r + 1 /\ c' = 0 /\ queue' = << >>
          /\ UNCHANGED << i, job, disk >>
          /\ ((Judge # "" \/ r = Len(job.runs)) => Emit([ i |-> i, run |-> r, why |-> Judge, disk |-> disk ]))
Tell == /\ why # "" /\ c > 0 /\ c' = 0 /\ r' = Len(job.runs) + 1 /\ UNCHANGED << i, job, disk, queue, why >>
        /\ Emit([ i |-> i, run |-> r, why |-> why, disk |-> disk ])
Spec == Init /\ [][Download \/ Finish \/ Tell]_vars

\* what the queue lists is complete on disk, and nothing twice
Present == \A q \in DOMAIN queue : disk[queue[q]] = "complete"
Once == why = "" => \A p, q \in DOMAIN queue : p # q => queue[p] # queue[q]
=====================================================================
