------------------------------ MODULE Dates ------------------------------
(* The calendar as a clock: days tick by, carrying year, month, day, day of year, week and quarter along by counting.
   The closed formulas of Calendar must agree with the clock on every day; the clock's days are replayed. *)
EXTENDS Calendar
CONSTANTS From, To          \* first and last year
VARIABLES y, m, d, n, w, wd, qu, ce
vars == << y, m, d, n, w, wd, qu, ce >>
Init == y = From /\ m = 1 /\ d = 1 /\ n = 1 /\ w = 1 /\ wd = 1 /\ qu = 1 /\ ce = 365 * From + 1

NewYear == /\ n = 365 /\ y < To
           /\ y' = y + 1 /\ m' = 1 /\ d' = 1 /\ n' = 1 /\ w' = 1 /\ wd' = 1 /\ qu' = 1 /\ ce' = ce + 1
Tick == /\ n < 365 /\ n' = n + 1 /\ ce' = ce + 1 /\ y' = y
        /\ IF d = MonthLen[m] THEN d' = 1 /\ m' = m + 1 /\ qu' = IF m % 3 = 0 THEN qu + 1 ELSE qu
           ELSE d' = d + 1 /\ m' = m /\ qu' = qu
        /\ IF wd = 7 /\ w < 52 THEN wd' = 1 /\ w' = w + 1 ELSE wd' = wd + 1 /\ w' = w
Next == (Tick \/ NewYear) /\ Emit([ y |-> y, m |-> m, d |-> d, n |-> n, w |-> w, q |-> qu, ce |-> ce ])
Spec == Init /\ [][Next]_vars

Agree == /\ ce = Ce(<< y, m, d >>) /\ n = DoyOf(m, d) /\ n = Doy(<< y, m, d >>)
         /\ m = MonthOfDoy(n) /\ d = DayOfDoy(n) /\ w = WeekOfDoy(n) /\ qu = QuarterOfDoy(n) /\ qu = QuarterOfMonth(m)
         /\ DateOfCe(ce) = << y, m, d >> /\ YearOfCe(ce) = y /\ DoyOfCe(ce) = n
         /\ FirstDoyOfWeek(w) <= n /\ (w < 52 => n < FirstDoyOfWeek(w + 1))
         /\ FirstDoyOfQuarter(qu) <= n /\ (qu < 4 => n < FirstDoyOfQuarter(qu + 1))
=====================================================================
