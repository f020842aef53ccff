------------------------------- MODULE ProvTable -------------------------------
(* Writers that add lines to one table at the same time. A writer takes the lock, looks whether the table exists, opens it
   (which creates it, empty), writes the header if it has created the table, writes its line in two parts, closes, unlocks.

   Way = "locked" is that protocol. Ways that are refuted: "open" takes no lock, "early" looks before it has the lock,
   "fresh" always starts a new table, "brief" gives the lock back before it has written its line. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Procs, Lines, Way

VARIABLES pc, done, lock, exists, table, saw
\* table: sequence of << kind, process, number >>, kind "H" header, "a" first part, "b" second part of a line
vars == << pc, done, lock, exists, table, saw >>
Init == /\ pc = [ p \in Procs |-> IF Way = "early" THEN "look" ELSE "lock" ]
        /\ done = [ p \in Procs |-> 0 ] /\ lock = {} /\ exists = FALSE /\ table = << >> /\ saw = [ p \in Procs |-> FALSE ]
Go(p, to) == pc' = [ pc EXCEPT ![p] = to ]
Rest == << done, lock, exists, table, saw >>

Lock(p) == /\ pc[p] = "lock" /\ (lock = {} \/ Way = "open") /\ lock' = lock \cup { p }
           /\ Go(p, IF Way = "early" THEN "open" ELSE "look") /\ UNCHANGED << done, exists, table, saw >>
Look(p) == /\ pc[p] = "look" /\ saw' = [ saw EXCEPT ![p] = exists ] /\ Go(p, IF Way = "early" THEN "lock" ELSE "open")
           /\ UNCHANGED << done, lock, exists, table >>
Open(p) == /\ pc[p] = "open" /\ exists' = TRUE /\ table' = IF saw[p] /\ Way # "fresh" THEN table ELSE << >>
           /\ lock' = IF Way = "brief" THEN lock \ { p } ELSE lock
           /\ Go(p, IF saw[p] THEN "a" ELSE "head") /\ UNCHANGED << done, saw >>
Head1(p) == /\ pc[p] = "head" /\ table' = Append(table, << "H", 0, 0 >>) /\ Go(p, "a") /\ UNCHANGED << done, lock, exists, saw >>
Part(p, k, to) == /\ pc[p] = k /\ table' = Append(table, << k, p, done[p] + 1 >>) /\ Go(p, to) /\ UNCHANGED << done, lock, exists, saw >>
Unlock(p) == /\ pc[p] = "unlock" /\ lock' = lock \ { p } /\ done' = [ done EXCEPT ![p] = @ + 1 ]
             /\ Go(p, IF done[p] + 1 = Lines THEN "end" ELSE IF Way = "early" THEN "look" ELSE "lock") /\ UNCHANGED << exists, table, saw >>
Step(p) == Lock(p) \/ Look(p) \/ Open(p) \/ Head1(p) \/ Part(p, "a", "b") \/ Part(p, "b", "unlock") \/ Unlock(p)
Next == \E p \in Procs : Step(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : SF_vars(Step(p))

\* a header, then whole lines, each at most once; only the last line may be unfinished, by the process that holds the lock
Whole == Len(table) % 2 = 1
WellFormed == /\ Len(table) > 0 => table[1][1] = "H"
              /\ \A i \in 2..Len(table) : table[i][1] = (IF i % 2 = 0 THEN "a" ELSE "b")
              /\ \A i \in 3..Len(table) : i % 2 = 1 => table[i][2] = table[i - 1][2] /\ table[i][3] = table[i - 1][3]
              /\ Cardinality({ table[i] : i \in 1..Len(table) }) = Len(table)
LinesKept == \A p \in Procs : \A k \in 1..done[p] : \E i \in 1..Len(table) : table[i] = << "b", p, k >>
OnlyGrows == [][ Len(table) <= Len(table') /\ SubSeq(table', 1, Len(table)) = table ]_vars
AllEnd == <>(\A p \in Procs : pc[p] = "end")
=====================================================================
