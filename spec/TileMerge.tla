------------------------------- MODULE TileMerge -------------------------------
(* Images of one day that are brought into the same tiles at the same time. Each process visits the files it adds to, one
   after the other. It locks the file, looks whether it exists, reads what is there, writes the file anew with its own and
   the old data (in two steps: the file is not whole in between), and unlocks.

   Way = "locked" is that protocol. Refuted: "open" has no lock, "early" reads before it has the lock, "brief" gives the
   lock back before the file is whole, "create" does not read what is there. *)
EXTENDS Naturals, FiniteSets
CONSTANTS Procs, Files, Way
\* every process adds itself to every file but one, which only the others share
Adds(p) == IF Cardinality(Procs) > 2 THEN { f \in Files : f # p } ELSE Files

VARIABLES pc, todo, at, buf, lock, file, whole
vars == << pc, todo, at, buf, lock, file, whole >>
Init == /\ pc = [ p \in Procs |-> "next" ] /\ todo = [ p \in Procs |-> Adds(p) ] /\ at = [ p \in Procs |-> 0 ]
        /\ buf = [ p \in Procs |-> {} ] /\ lock = [ f \in Files |-> {} ] /\ file = [ f \in Files |-> {} ] /\ whole = [ f \in Files |-> TRUE ]
Go(p, to) == pc' = [ pc EXCEPT ![p] = to ]

Choose(p) == /\ pc[p] = "next"
             /\ IF todo[p] = {} THEN Go(p, "end") /\ UNCHANGED << todo, at >>
                ELSE \E f \in todo[p] : /\ \A g \in todo[p] : f <= g
                                        /\ at' = [ at EXCEPT ![p] = f ] /\ todo' = [ todo EXCEPT ![p] = @ \ { f } ]
                                        /\ Go(p, IF Way = "early" THEN "read" ELSE "lock")
             /\ UNCHANGED << buf, lock, file, whole >>
Lock(p) == /\ pc[p] = "lock" /\ (lock[at[p]] = {} \/ Way = "open") /\ lock' = [ lock EXCEPT ![at[p]] = @ \cup { p } ]
           /\ Go(p, IF Way = "early" THEN "start" ELSE "read") /\ UNCHANGED << todo, at, buf, file, whole >>
Read(p) == /\ pc[p] = "read" /\ buf' = [ buf EXCEPT ![p] = IF Way = "create" THEN {} ELSE file[at[p]] ]
           /\ Go(p, IF Way = "early" THEN "lock" ELSE "start") /\ UNCHANGED << todo, at, lock, file, whole >>
Start(p) == /\ pc[p] = "start" /\ file' = [ file EXCEPT ![at[p]] = {} ] /\ whole' = [ whole EXCEPT ![at[p]] = FALSE ]
            /\ lock' = IF Way = "brief" THEN [ lock EXCEPT ![at[p]] = @ \ { p } ] ELSE lock
            /\ Go(p, "write") /\ UNCHANGED << todo, at, buf >>
Write(p) == /\ pc[p] = "write" /\ file' = [ file EXCEPT ![at[p]] = buf[p] \cup { p } ] /\ whole' = [ whole EXCEPT ![at[p]] = TRUE ]
            /\ Go(p, "unlock") /\ UNCHANGED << todo, at, buf, lock >>
Unlock(p) == /\ pc[p] = "unlock" /\ lock' = [ lock EXCEPT ![at[p]] = @ \ { p } ] /\ Go(p, "next") /\ UNCHANGED << todo, at, buf, file, whole >>
Step(p) == Choose(p) \/ Lock(p) \/ Read(p) \/ Start(p) \/ Write(p) \/ Unlock(p)
Next == \E p \in Procs : Step(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : SF_vars(Step(p))

Past(p) == { f \in Adds(p) : f \notin todo[p] /\ (at[p] # f \/ pc[p] \in { "next", "end" }) }
NothingLost == \A p \in Procs : \A f \in Past(p) : whole[f] => p \in file[f]
ReadWhole == \A p \in Procs : pc[p] = "read" /\ Way # "early" => whole[at[p]]
NoLockLeft == (\A p \in Procs : pc[p] = "end") => \A f \in Files : lock[f] = {} /\ whole[f]
AllEnd == <>(\A p \in Procs : pc[p] = "end")
=====================================================================
