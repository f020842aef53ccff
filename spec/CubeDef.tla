------------------------------- MODULE CubeDef -------------------------------
(* Processes that start to write into a data cube at the same time, each with its own definition. A process looks for the
   definition; if there is none it writes a file of its own in several steps and publishes it in one step that fails if
   the definition exists by then.

   Way = "publish" is that protocol. Ways that are refuted: "inplace" writes the definition itself after having looked,
   "locked" does the same under a lock (without looking again), "again" looks again under the lock, "racy" takes a lock
   that two processes can get at once. *)
EXTENDS Emit
CONSTANTS Procs, Parts, Way
None == 0

VARIABLES pc, def, have, temp, lock
\* def: << writer, number of parts >> or << None, 0 >>; have: definition at the time the process ended
vars == << pc, def, have, temp, lock >>
Absent == << None, 0 >>
Init == pc = [ p \in Procs |-> "look" ] /\ def = Absent /\ have = [ p \in Procs |-> Absent ] /\ temp = [ p \in Procs |-> 0 ] /\ lock = {}

Go(p, to) == pc' = [ pc EXCEPT ![p] = to ]
Exclusive == Way \in { "locked", "again" }
UseLock == Way \in { "locked", "again", "racy" }

Look(p) == /\ pc[p] = "look"
           /\ IF def # Absent THEN Go(p, "end") ELSE Go(p, IF Way = "publish" THEN "temp" ELSE IF UseLock THEN "lock" ELSE "open")
           /\ UNCHANGED << def, have, temp, lock >>
\* the sound protocol
Temp(p) == /\ pc[p] = "temp"
           /\ IF temp[p] < Parts THEN temp' = [ temp EXCEPT ![p] = @ + 1 ] /\ UNCHANGED pc ELSE Go(p, "publish") /\ UNCHANGED temp
           /\ UNCHANGED << def, have, lock >>
Publish(p) == /\ pc[p] = "publish" /\ Go(p, "end")
              /\ def' = IF def = Absent THEN << p, temp[p] >> ELSE def
              /\ UNCHANGED << have, temp, lock >>
\* the others
TryLock(p) == /\ pc[p] = "lock" /\ lock = {} /\ Go(p, "take") /\ UNCHANGED << def, have, temp >>
              /\ lock' = IF Exclusive THEN { p } ELSE lock
Take(p) == /\ pc[p] = "take" /\ lock' = lock \cup { p } /\ UNCHANGED << have, temp, def >>
           /\ Go(p, IF Way = "again" /\ def # Absent THEN "unlock" ELSE "open")
Open(p) == /\ pc[p] = "open" /\ def' = << p, 0 >> /\ Go(p, "write") /\ UNCHANGED << have, temp, lock >>
Write(p) == /\ pc[p] = "write" /\ UNCHANGED << have, temp, lock >>
            /\ IF def[2] < Parts THEN def' = << p, def[2] + 1 >> /\ UNCHANGED pc ELSE UNCHANGED def /\ Go(p, "unlock")
Unlock(p) == /\ pc[p] = "unlock" /\ lock' = lock \ { p } /\ Go(p, "end") /\ UNCHANGED << def, have, temp >>
End(p) == /\ pc[p] = "end" /\ Go(p, "ended") /\ have' = [ have EXCEPT ![p] = def ] /\ UNCHANGED << def, temp, lock >>
Next == \E p \in Procs : Look(p) \/ Temp(p) \/ Publish(p) \/ TryLock(p) \/ Take(p) \/ Open(p) \/ Write(p) \/ Unlock(p) \/ End(p)
Fair == \A p \in Procs : WF_vars(Look(p) \/ Temp(p) \/ Publish(p) \/ TryLock(p) \/ Take(p) \/ Open(p) \/ Write(p) \/ Unlock(p) \/ End(p))
Spec == Init /\ [][Next]_vars /\ Fair

Complete == def = Absent \/ def[2] = Parts
WriteOnce == [][ def # Absent => def' = def ]_vars
EndedHasIt == \A p \in Procs : pc[p] = "ended" => have[p] # Absent /\ have[p][2] = Parts
AllEnd == <>(\A p \in Procs : pc[p] = "ended")
=====================================================================
