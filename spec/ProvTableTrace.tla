------------------------------- MODULE ProvTableTrace -------------------------------
(* Recorded runs of writers to one table: after every file operation, who acted and what the table was. A run is accepted
   if it is a behaviour of ProvTable with Way = "locked" in which steps that are not visible are left out.
   trace: own << number of lines of each process >>, steps << [p, ended, table] >>, table << << owner, number >> >>:
   << 0, 0 >> header, << -1, 0 >> an unfinished last line, << -2, 0 >> anything else *)
EXTENDS Emit
Traces == InputsFrom("TRACES")
VARIABLES i, trace, n, table, ended, why
vars == << i, trace, n, table, ended, why >>
Init == i \in 1..Len(Traces) /\ trace = Traces[i] /\ n = 0 /\ table = << >> /\ ended = {} /\ why = ""

St == trace.steps[n + 1]
NoPart(t) == IF t # << >> /\ t[Len(t)][1] = -1 THEN SubSeq(t, 1, Len(t) - 1) ELSE t
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Over == St.ended = 1
Ended2 == IF Over THEN ended \cup { St.p } ELSE ended
Wrong == LET t == NoPart(St.table) IN
         IF \E k \in 1..Len(t) : t[k][1] < 0 THEN "torn"
         ELSE IF t # << >> /\ t[1] # << 0, 0 >> THEN "without header"
         ELSE IF \E k \in 2..Len(t) : t[k] = << 0, 0 >> THEN "with a second header"
         ELSE IF Cardinality({ t[k] : k \in 1..Len(t) }) < Len(t) THEN "with a line twice"
         ELSE IF ~IsPrefixOf(NoPart(table), t) THEN "losing lines"
         ELSE IF \E p \in Ended2 : \E k \in 1..trace.own[p] : ~\E j \in 1..Len(t) : t[j] = << p, k >> THEN "lacking a line"
         ELSE IF Ended2 = 1..Len(trace.own) /\ t # St.table THEN "unfinished"
         ELSE ""
Step == /\ why = "" /\ n < Len(trace.steps) /\ n' = n + 1
        /\ why' = Wrong /\ table' = St.table /\ ended' = Ended2
        /\ UNCHANGED << i, trace >>
        /\ (Wrong # "" => Emit([ i |-> i, ok |-> FALSE, why |-> Wrong, at |-> n + 1 ]))
        /\ ((Wrong = "" /\ n + 1 = Len(trace.steps)) => Emit([ i |-> i, ok |-> TRUE, why |-> "", at |-> n + 1 ]))
Spec == Init /\ [][Step]_vars
=====================================================================
