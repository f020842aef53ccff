---------------------------- MODULE CubeSize ----------------------------
(* Sizes of a datacube: the files of all tiles are visited, the size of a file is added to its sensor, and to the total. Files   *)
(* of no listed sensor, directories besides the tiles, and the definition of the datacube do not count.                          *)
EXTENDS Emit

Jobs == InputsFrom("JOBS")
\* file: tile, sensor (0: none that is listed), bytes

VARIABLES i, at, size, total
vars == <<i, at, size, total>>

Init == i \in 1 .. Len(Jobs) /\ at = 0 /\ size = [s \in 1 .. Jobs[i].sensors |-> 0] /\ total = 0

Visit == /\ at < Len(Jobs[i].files)
         /\ at' = at + 1
         /\ LET f == Jobs[i].files[at + 1] IN
            IF f.sensor = 0 \/ f.tile = 0 THEN UNCHANGED <<size, total>>
            ELSE size' = [size EXCEPT ![f.sensor] = @ + f.bytes] /\ total' = total + f.bytes
         /\ UNCHANGED i

Report == at = Len(Jobs[i].files) /\ Emit([i |-> i, size |-> size, total |-> total]) /\ UNCHANGED vars
Next == Visit \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Visit)

Adds == total = SumSeq(size)
Grows == [][\A s \in 1 .. Jobs[i].sensors : size'[s] >= size[s]]_vars
\* the order of the files does not matter
Whole == (at = Len(Jobs[i].files)) =>
  \A s \in 1 .. Jobs[i].sensors : size[s] = SumSeq([k \in 1 .. at |-> IF Jobs[i].files[k].sensor = s /\ Jobs[i].files[k].tile > 0 THEN Jobs[i].files[k].bytes ELSE 0])
Ends == <>(at = Len(Jobs[i].files))
=========================================================================
