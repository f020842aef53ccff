----------------------------- MODULE Vapor -----------------------------
(* The water vapour that corrects a Landsat image: the value of the nearest place of the table of the day, if this place is nearer than one and a   *)
(* half degrees and has a value; if not, the one of the climatology of the month, unless only daily tables are permitted; if neither, the image      *)
(* cannot be processed. Angles and water vapour are in hundredths; no value is 999900.                                                               *)
EXTENDS Emit

Jobs == InputsFrom("JOBS")
\* job: daily, climatology: [ there, lines: sequence of [x, y, v] ] relative to the centre of the image; strict
VARIABLES i, table, line, best, value
vars == <<i, table, line, best, value>>
J == Jobs[i]
Tables == << "climatology", "daily" >>
None == -1
Far == 150 * 150
T == J[Tables[table]]
Dist(l) == l.x * l.x + l.y * l.y
Init == i \in 1 .. Len(Jobs) /\ table = 1 /\ line = 1 /\ best = Far /\ value = [climatology |-> None, daily |-> None]
ReadLine ==
        /\ table <= 2 /\ T.there /\ line <= Len(T.lines)
        /\ LET l == T.lines[line] IN
           IF Dist(l) < best THEN best' = Dist(l) /\ value' = [value EXCEPT ![Tables[table]] = l.v] ELSE UNCHANGED <<best, value>>
        /\ line' = line + 1 /\ UNCHANGED <<i, table>>
NextTable == /\ table <= 2 /\ (~T.there \/ line > Len(T.lines))
             /\ table' = table + 1 /\ line' = 1 /\ best' = Far /\ UNCHANGED <<i, value>>
Usable(v) == IF v > 1000 THEN None ELSE v
Chosen == IF Usable(value.daily) # None THEN Usable(value.daily) ELSE IF J.strict THEN None ELSE Usable(value.climatology)
Decide == table = 3 /\ Emit([i |-> i, value |-> Chosen]) /\ table' = 4 /\ UNCHANGED <<i, line, best, value>>
Next == ReadLine \/ NextTable \/ Decide \/ (table = 4 /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(ReadLine) /\ WF_vars(NextTable) /\ WF_vars(Decide)
\* no other line of the table is nearer
Nearest == table = 4 => \A t \in {"climatology", "daily"} :
             LET near == { k \in 1 .. Len(J[t].lines) : Dist(J[t].lines[k]) < Far } IN
             IF ~J[t].there \/ near = {} THEN value[t] = None
             ELSE \E k \in near : value[t] = J[t].lines[k].v /\ \A q \in near : Dist(J[t].lines[k]) <= Dist(J[t].lines[q])
Strict == (table = 4 /\ J.strict /\ ~J.daily.there) => Chosen = None
Ends == <>(table = 4)
\* expected to be violated: the climatology is never needed
Daily == table = 4 => Chosen \in {None, value.daily}
=========================================================================
