---------------------------- MODULE Queue2 ----------------------------
(* The Level 2 file queue: one scheduler run after another takes a snapshot of the queued entries, up to Nproc jobs work on
   them at the same time, each job records its outcome by replacing the queue file, and another program appends new
   entries meanwhile. Replacing the file is read - compute - rename, therefore everybody who changes the file holds the
   lock. An entry is <<id, status>>.  Images can be broken (cannot be unpacked): such a job never starts the processor. *)
EXTENDS Emit, FiniteSetsExt

CONSTANTS Ids, MaxLen, Nproc, Appends, Runs, Locked, BrokenSets

Status == { "QUEUED", "DONE", "FAIL" }
Nobody == 0
Ext == -1                 \* the appending program
Sched == -2               \* the scheduler itself

VARIABLES
  queue,      \* the file
  plan,       \* entries of this run that wait for a slot, in file order
  job,        \* id -> "idle" | "run" | "done" | "read" : position of the job
  outcome,    \* id -> outcome of the last job
  lock,
  copy,       \* what the holder read
  left,       \* runs left
  phase,      \* "between" | "clean" | "work"
  new,        \* entries still to be appended
  starts,     \* id -> number of processor starts in this run
  snap,       \* queue at the time of scheduling
  broken,     \* images that cannot be unpacked
  hist        \* history (events that can be observed or controlled)
vars == << queue, plan, job, outcome, lock, copy, left, phase, new, starts, snap, broken, hist >>

Pos(q, i) == CHOOSE p \in 1..Len(q) : q[p][1] = i
Has(q, i) == \E p \in 1..Len(q) : q[p][1] = i
Queued(q) == SelectSeq(q, LAMBDA e : e[2] = "QUEUED")
IdsOf(q) == [ p \in 1..Len(q) |-> q[p][1] ]
Active == { i \in Ids : job[i] # "idle" }
Ev(e) == hist' = Append(hist, e) /\ broken' = broken
Same == hist' = hist /\ broken' = broken
CanLock == ~Locked \/ lock = Nobody

Init ==
  /\ \E n \in 1..MaxLen : \E st \in [1..n -> Status] : queue = [ p \in 1..n |-> << p, st[p] >> ]
  /\ plan = <<>> /\ job = [ i \in Ids |-> "idle" ] /\ outcome = [ i \in Ids |-> "none" ]
  /\ lock = Nobody /\ copy = [ h \in Ids \cup {Ext, Sched} |-> <<>> ] /\ left = Runs /\ phase = "between"
  /\ new = Appends /\ starts = [ i \in Ids |-> 0 ] /\ snap = <<>> /\ broken \in BrokenSets /\ hist = << << "init", queue >> >>

\* the scheduler normalises the file and takes its snapshot
SchedRead == /\ phase = "between" /\ left > 0 /\ CanLock
             /\ lock' = Sched /\ copy' = [ copy EXCEPT ![Sched] = queue ] /\ phase' = "clean"
             /\ UNCHANGED << queue, plan, job, outcome, left, new, starts, snap >> /\ Same
SchedTake == /\ phase = "clean"
             /\ queue' = copy[Sched] /\ snap' = copy[Sched] /\ plan' = IdsOf(Queued(copy[Sched])) /\ phase' = "work"
             /\ lock' = Nobody /\ left' = left - 1 /\ starts' = [ i \in Ids |-> 0 ]
             /\ Ev(<< "take", 0 >>) /\ UNCHANGED << job, outcome, copy, new >>
Start(i) == /\ phase = "work" /\ plan # <<>> /\ i = Head(plan) /\ Cardinality(Active) < Nproc
            /\ plan' = Tail(plan) /\ job' = [ job EXCEPT ![i] = "run" ] /\ starts' = [ starts EXCEPT ![i] = IF i \in broken THEN @ ELSE @ + 1 ]
            /\ Ev(<< IF i \in broken THEN "unpack" ELSE "start", i >>) /\ UNCHANGED << queue, outcome, lock, copy, left, phase, new, snap >>
Finish(i, o) == /\ job[i] = "run" /\ (i \in broken => o = "FAIL") /\ job' = [ job EXCEPT ![i] = "done" ] /\ outcome' = [ outcome EXCEPT ![i] = o ]
                /\ Ev(<< IF o = "DONE" THEN "ok" ELSE "bad", i >>) /\ UNCHANGED << queue, plan, lock, copy, left, phase, new, starts, snap >>
RecRead(i) == /\ job[i] = "done" /\ CanLock /\ lock' = i
              /\ copy' = [ copy EXCEPT ![i] = queue ] /\ job' = [ job EXCEPT ![i] = "read" ]
              /\ UNCHANGED << queue, plan, outcome, left, phase, new, starts, snap >> /\ Same
RecWrite(i) == /\ job[i] = "read"
               /\ queue' = [ p \in 1..Len(copy[i]) |-> IF copy[i][p][1] = i THEN << i, outcome[i] >> ELSE copy[i][p] ]
               /\ lock' = Nobody /\ job' = [ job EXCEPT ![i] = "idle" ] /\ Ev(<< "record", i >>)
               /\ UNCHANGED << plan, outcome, copy, left, phase, new, starts, snap >>
AppendNew == /\ new > 0 /\ CanLock
             /\ \E i \in Ids : /\ ~ Has(queue, i) /\ (\A k \in Ids : k < i => Has(queue, k)) /\ queue' = Append(queue, << i, "QUEUED" >>) /\ Ev(<< "append", i >>)
             /\ new' = new - 1 /\ UNCHANGED << plan, job, outcome, lock, copy, left, phase, starts, snap >>
End == /\ phase = "work" /\ plan = <<>> /\ Active = {} /\ phase' = "between" /\ Ev(<< "end", 0 >>)
       /\ UNCHANGED << queue, plan, job, outcome, lock, copy, left, new, starts, snap >>

Next == SchedRead \/ SchedTake \/ AppendNew \/ End \/ \E i \in Ids : Start(i) \/ RecRead(i) \/ RecWrite(i) \/ Finish(i, "DONE") \/ Finish(i, "FAIL")
Spec == Init /\ [][Next]_vars

\* ---- what users rely on
StartedOnce == \A i \in Ids : starts[i] <= 1
BrokenNeverStart == \A i \in broken : starts[i] = 0
OnlyQueued == \A i \in Ids : starts[i] = 1 => Has(snap, i) /\ snap[Pos(snap, i)][2] = "QUEUED"
SlotsRespected == Cardinality(Active) <= Nproc
NoLineLost == [][Len(queue') >= Len(queue) /\ \A p \in 1..Len(queue) : queue'[p][1] = queue[p][1]]_vars
OthersUntouched == [][\A p \in 1..Len(queue) : queue'[p][2] # queue[p][2] => job[queue[p][1]] = "read" /\ queue'[p][2] = outcome[queue[p][1]]]_vars
Recorded == (phase = "between" /\ left < Runs) =>
   \A p \in 1..Len(snap) : LET i == snap[p][1] IN
      queue[p] = IF snap[p][2] = "QUEUED" THEN << i, outcome[i] >> ELSE snap[p]

\* ---- handing over complete histories
Final == phase = "between" /\ left = 0 /\ new = 0
EmitFinal == Final => Emit([ hist |-> hist, queue |-> queue, broken |-> SortSet(broken) ])
View == << queue, plan, job, outcome, lock, copy, left, phase, new, starts, snap, broken >>
MC_Broken == { {}, {2} }
MC_Broken2 == { {}, {1}, {2}, {1, 3} }
=====================================================================
