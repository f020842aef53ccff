---------------------------- MODULE Change ----------------------------
(* Change, aftereffect, trend of a folded series.  The series is walked along from period to period; each valid value is compared   *)
(* with the valid one before it, and the largest drop (or, with a penalty on changes that do not last, the largest product of the   *)
(* drop and of what is left of it at the next valid value) is the change.  It splits the series into the part before and the part   *)
(* from the change on; both, and the complete series, are described by their least-squares lines.                                   *)
(*                                                                                                                                  *)
(* job: [ n, values: what a period may hold, penalty, tail "TWO" | "LEFT" | "RIGHT", conf 95 | 90 ] all series are explored, or     *)
(*      [ series: recorded ones, ... ]                                                                                              *)
EXTENDS Stats
Jobs == InputsFrom("JOBS")
None == -9999
VARIABLES j, s, f, pre, best, score
vars == << j, s, f, pre, best, score >>
\* pre: last valid position so far (0: none); best: positions with the largest score so far; score: << value >> or << >>

Series(job) == IF "series" \in DOMAIN job THEN { job.series[i] : i \in 1..Len(job.series) } ELSE [ 1..job.n -> { job.values[i] : i \in 1..Len(job.values) } ]
Init == /\ j \in 1..Len(Jobs) /\ s \in Series(Jobs[j])
        /\ f = 1 /\ pre = 0 /\ best = {} /\ score = << >>
NextValid(q) == LET R == { k \in (q + 1)..Len(s) : s[k] # None } IN IF R = {} THEN 0 ELSE MinSet(R)

\* candidates for the change: a number, or nothing; drops that do not last are only comparable with each other
Candidate(q) ==
  LET drop == s[pre] - s[q] IN
  IF ~ Jobs[j].penalty THEN << drop >>
  ELSE IF NextValid(q) = 0 \/ drop <= 0 THEN << >>
  ELSE LET w == drop * (s[pre] - s[NextValid(q)]) IN IF w > 0 THEN << w >> ELSE << >>

Skip == f <= Len(s) /\ s[f] = None /\ f' = f + 1 /\ UNCHANGED << j, s, pre, best, score >>
First == f <= Len(s) /\ s[f] # None /\ pre = 0 /\ f' = f + 1 /\ pre' = f /\ UNCHANGED << j, s, best, score >>
Compare == /\ f <= Len(s) /\ s[f] # None /\ pre # 0
           /\ LET c == Candidate(f) IN
              IF c = << >> THEN UNCHANGED << best, score >>
              ELSE IF score = << >> \/ c[1] > score[1] THEN best' = { f } /\ score' = c
              ELSE IF c[1] = score[1] THEN best' = best \cup { f } /\ score' = score
              ELSE UNCHANGED << best, score >>
           /\ f' = f + 1 /\ pre' = f /\ UNCHANGED << j, s >>

RECURSIVE Pts(_, _, _)
Pts(ser, a, b) == IF a > b THEN << >> ELSE (IF ser[a] = None THEN << >> ELSE << << a - 1, ser[a] >> >>) \o Pts(ser, a + 1, b)

\* squared t scores in hundredths, by degrees of freedom
Crit(tail, conf, df) ==
  LET two95 == << 16145, 1852, 1013, 771, 661, 599 >>  one95 == << 3986, 853, 554, 455, 406, 377 >>  one90 == << 947, 356, 268, 235, 218, 207 >>
  IN IF tail = "TWO" THEN (IF conf = 95 THEN two95[df] ELSE one95[df]) ELSE (IF conf = 95 THEN one95[df] ELSE one90[df])
\* what the test of the slope may say; both where the score is next to the critical one
Sig(job, o) ==
  LET a == o.slope[1]  vx == o.slope[2]  den == vx * o.vy - a * a  df == o.n - 2
      side == IF a > 0 THEN 1 ELSE -1
      seen == job.tail = "TWO" \/ (job.tail = "RIGHT" /\ a > 0) \/ (job.tail = "LEFT" /\ a < 0)
      c == Crit(job.tail, job.conf, df)
      t2 == IF den = 0 THEN 1000000 ELSE IF a * a * df < 20000000 THEN (a * a * df * 100) \div den ELSE IF den < 10000 THEN 1000000 ELSE (a * a * df) \div (den \div 100)
  IN IF df > 6 \/ (a = 0 /\ den = 0) THEN { -1, 0, 1 } ELSE IF ~ seen \/ a = 0 THEN { 0 }
     ELSE IF t2 * 100 > c * 104 THEN { side } ELSE IF t2 * 100 < c * 96 THEN { 0 } ELSE { 0, side }

RECURSIVE Res(_, _)
Res(P, o) == IF P = << >> THEN << >> ELSE << Abs(o.slope[2] * Head(P)[2] - o.offset[1] - o.slope[1] * Head(P)[1]) >> \o Res(Tail(P), o)
\* a part of the series: what is known of its line, which starts at the first period of the part
Part(job, ser, a, b) ==
  LET P == Pts(ser, a, b)  k == Len(P)
  IN IF k = 0 THEN [ n |-> 0, len |-> b - a + 1 ]
     ELSE IF k < 3 THEN [ n |-> k, len |-> b - a + 1, mean |-> << SumXY(P, "y"), k >>, mx |-> << SumXY(P, "x"), k >> ]
     ELSE LET o == Ols(P)  r == Res(P, o)
          IN [ n |-> k, len |-> b - a + 1, mean |-> o.mean, mx |-> << SumXY(P, "x"), k >>, slope |-> o.slope, start |-> << o.offset[1] + (a - 1) * o.slope[1], o.offset[2] >>, from |-> a - 1,
               vy |-> o.vy, sae |-> SumSeq(r), maxres |-> MaxSet({ r[i] : i \in 1..Len(r) }), sig |-> Sig(job, o) ]

Told == f = Len(s) + 1
Before(b) == { k \in 1..Len(s) : s[k] # None /\ k < b }
Tell == /\ Told /\ f' = f + 1 /\ UNCHANGED << j, s, pre, best, score >>
        /\ Emit([ job |-> j, s |-> s, total |-> Part(Jobs[j], s, 1, Len(s)),
                  changes |-> { [ at |-> b, drop |-> s[MaxSet(Before(b))] - s[b], before |-> Part(Jobs[j], s, 1, b - 1), after |-> Part(Jobs[j], s, b, Len(s)) ] : b \in best } ])
Next == Skip \/ First \/ Compare \/ Tell
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(f = Len(s) + 2)
--------------------------------------------------------------------------
\* no drop between consecutive valid values is larger than the one that is reported
Largest == (Told /\ ~ Jobs[j].penalty /\ best # {}) =>
   \A b \in best : \A q \in 1..Len(s) : (s[q] # None /\ Before(q) # {}) => s[MaxSet(Before(q))] - s[q] <= s[MaxSet(Before(b))] - s[b]
\* the parts share nothing and leave nothing out
Whole == Told => \A b \in best : Part(Jobs[j], s, 1, b - 1).n + Part(Jobs[j], s, b, Len(s)).n = Part(Jobs[j], s, 1, Len(s)).n
Found == (Told /\ ~ Jobs[j].penalty) => ((best = {}) <=> Cardinality({ k \in 1..Len(s) : s[k] # None }) < 2)
NeverTie == Cardinality(best) <= 1                                          \* violated: equal drops
AlwaysLasting == (Told /\ Jobs[j].penalty /\ Len(s) > 2) => best # {}       \* violated: no drop lasts
=======================================================================
