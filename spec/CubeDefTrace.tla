------------------------------- MODULE CubeDefTrace -------------------------------
(* Recorded runs: after every file operation of a process, who acted and what the definition was. A run is accepted if it
   is a behaviour of CubeDef with Way = "publish" in which steps that are not visible are left out.
   trace: procs, steps << << process, writer of the definition (0 none, -1 incomplete), ended (0/1) >> >> *)
EXTENDS Emit
Traces == InputsFrom("TRACES")

VARIABLES i, trace, n, def, ended, why
vars == << i, trace, n, def, ended, why >>
Init == i \in 1..Len(Traces) /\ trace = Traces[i] /\ n = 0 /\ def = 0 /\ ended = {} /\ why = ""

St == trace.steps[n + 1]
\* a step either leaves the definition alone or publishes the one of the process that acted; who ended has a definition
Wrong == IF St[2] = -1 THEN "incomplete"
         ELSE IF def # 0 /\ St[2] # def THEN "changed"
         ELSE IF def = 0 /\ St[2] # 0 /\ St[2] # St[1] THEN "foreign"
         ELSE IF St[3] = 1 /\ St[2] = 0 THEN "absent"
         ELSE ""
Step == /\ why = "" /\ n < Len(trace.steps) /\ n' = n + 1
        /\ why' = Wrong /\ def' = St[2] /\ ended' = IF St[3] = 1 THEN ended \cup { St[1] } ELSE ended
        /\ UNCHANGED << i, trace >>
        /\ (Wrong # "" => Emit([ i |-> i, ok |-> FALSE, why |-> Wrong, at |-> n + 1 ]))
        /\ ((Wrong = "" /\ n + 1 = Len(trace.steps)) => Emit([ i |-> i, ok |-> TRUE, why |-> "", at |-> n + 1 ]))
Spec == Init /\ [][Step]_vars
Sane == def \in -1..trace.procs
=====================================================================
