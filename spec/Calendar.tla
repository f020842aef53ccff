---------------------------- MODULE Calendar ----------------------------
(* The calendar used everywhere in FORCE: every year has 365 days; the 29th of February shares its position with the
   1st of March; weeks start on January 1st and the last (52nd) week takes the remaining days.  A date is <<y, m, d>>. *)
EXTENDS Emit

MonthLen == << 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 >>
Cum == << 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 >>      \* days before the month

DoyOf(m, d) == Cum[m] + d
MonthOfDoy(n) == MaxSet({ m \in 1..12 : Cum[m] < n })
DayOfDoy(n) == n - Cum[MonthOfDoy(n)]
WeekOfDoy(n) == Min2(52, (n + 6) \div 7)
FirstDoyOfWeek(w) == 7 * (w - 1) + 1
QuarterOfMonth(m) == (m + 2) \div 3
QuarterOfDoy(n) == QuarterOfMonth(MonthOfDoy(n))
FirstDoyOfQuarter(q) == DoyOf(3 * (q - 1) + 1, 1)

Doy(t) == DoyOf(t[2], t[3])
Ce(t) == 365 * t[1] + Doy(t)                 \* position on the time axis
YearOfCe(c) == (c - 1) \div 365
DoyOfCe(c) == ((c - 1) % 365) + 1
DateOfCe(c) == << YearOfCe(c), MonthOfDoy(DoyOfCe(c)), DayOfDoy(DoyOfCe(c)) >>

Week(t) == WeekOfDoy(Doy(t))
Quarter(t) == QuarterOfMonth(t[2])

\* days of year selected by a range that may wrap around the new year
DoyRange(lo, hi) == IF lo <= hi THEN lo..hi ELSE (1..hi) \cup (lo..365)

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
ValidDate(t) == /\ t[2] \in 1..12
                /\ t[3] >= 1
                /\ t[3] <= IF t[2] = 2 /\ IsLeap(t[1]) THEN 29 ELSE MonthLen[t[2]]
=====================================================================
