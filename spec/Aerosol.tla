---------------------------- MODULE Aerosol ----------------------------
(* Aerosols that are given from outside: the table of the day of the year of the image is read line by line, and the line whose place is nearest to   *)
(* the image decides, however far it is. Without a table of this day the image cannot be processed; without any directory, a global value is used.    *)
(* Angles are in hundredths of a degree relative to the image.                                                                                       *)
EXTENDS Emit

Jobs == InputsFrom("JOBS")
\* job: year, month, day; given (a directory of tables is); tables: sequence of [doy, lines: sequence of [x, y]]
Lengths == << 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 >>
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
VARIABLES i, phase, month, doy, table, line, nearest
vars == <<i, phase, month, doy, table, line, nearest>>
J == Jobs[i]
Init == i \in 1 .. Len(Jobs) /\ phase = "date" /\ month = 1 /\ doy = 0 /\ table = 0 /\ line = 1 /\ nearest = 0
Days(m) == Lengths[m] + (IF m = 2 /\ Leap(J.year) THEN 1 ELSE 0)
Month == /\ phase = "date" /\ month < J.month
         /\ doy' = doy + Days(month) /\ month' = month + 1 /\ UNCHANGED <<i, phase, table, line, nearest>>
Day == /\ phase = "date" /\ month = J.month
       /\ doy' = doy + J.day /\ phase' = "open" /\ UNCHANGED <<i, month, table, line, nearest>>
Matching == { k \in 1 .. Len(J.tables) : J.tables[k].doy = doy }
Open == /\ phase = "open"
        /\ IF ~J.given THEN phase' = "global" /\ table' = 0
           ELSE IF Matching = {} THEN phase' = "refused" /\ table' = 0
           ELSE phase' = "read" /\ table' = MinSet(Matching)
        /\ UNCHANGED <<i, month, doy, line, nearest>>
L == J.tables[table].lines
Dist(l) == l.x * l.x + l.y * l.y
ReadLine == /\ phase = "read" /\ line <= Len(L)
            /\ nearest' = (IF nearest = 0 \/ Dist(L[line]) < Dist(L[nearest]) THEN line ELSE nearest)
            /\ line' = line + 1 /\ UNCHANGED <<i, phase, month, doy, table>>
Read == phase = "read" /\ line > Len(L) /\ phase' = "table" /\ UNCHANGED <<i, month, doy, table, line, nearest>>
Final == phase \in {"refused", "table", "global"}
Tell == Final /\ Emit([i |-> i, what |-> phase, table |-> table, line |-> nearest, doy |-> doy]) /\ phase' = "end" /\ UNCHANGED <<i, month, doy, table, line, nearest>>
Next == Month \/ Day \/ Open \/ ReadLine \/ Read \/ Tell \/ (phase = "end" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Nearest == phase = "table" => \A k \in 1 .. Len(L) : Dist(L[nearest]) <= Dist(L[k])
Doy == phase # "date" => (doy \in 1 .. 366 /\ (doy = 366 => Leap(J.year)))
Ends == <>(phase = "end")
\* expected to be violated: every image has its table
Always == phase # "refused"
=========================================================================
