----------------------------- MODULE Phenology -----------------------------
(***************************************************************************)
(* Phenology of an equidistant series in polar coordinates.                *)
(*                                                                         *)
(* The phenological year starts on a day of year opposite of the mean      *)
(* vector of the series.  Every season reaches from the first step on or   *)
(* after that day to the same step of the next year; adaptive seasons move *)
(* each start by a number of days.  Within a season the values are         *)
(* accumulated; the season starts, has its middle and ends with the first  *)
(* step whose share of the total reaches the respective threshold.         *)
(*                                                                         *)
(* px: ce << >> days since the first year began (365 days per year),       *)
(*     v << >> values (>= 0), step days, day (start of the phenological    *)
(*     year), shift << >> days per season, ns seasons, cut << start, mid,  *)
(*     end >> in per mille                                                 *)
(***************************************************************************)
EXTENDS Emit, Integers, Sequences, FiniteSets

Px == InputsFrom("PIXELS")

VARIABLES px, i, season, open, first, run, done
vars == << px, i, season, open, first, run, done >>

P == Px[px]
N == Len(P.ce)
Start(s) == P.day + s * 365
\* a season that began before the series is incomplete and not described here
Present(s) == P.ce[1] - Start(s) <= P.step
Regular(s) == LET S == { k \in 1..N : P.ce[k] >= Start(s) } IN IF S = {} THEN N + 1 ELSE MinSet(S)
Moved(s) == IF s >= P.ns \/ Regular(s) = 1 THEN 0
            ELSE IF P.shift[s + 1] >= 0 THEN P.shift[s + 1] \div P.step ELSE -((-P.shift[s + 1]) \div P.step)
Begin(s) == Regular(s) + Moved(s)
Bounds == [s \in 0..P.ns |-> Begin(s)]
Ordered == \A s \in 0..(P.ns - 1) : Present(s) => Begin(s) >= 1 /\ Begin(s) < Begin(s + 1)
\* steps within a day of the start cannot be told from it
NearStart == \/ \E s \in 0..P.ns : Abs(P.ce[1] - Start(s) - P.step) <= 1
             \/ \E s \in 0..P.ns : \E k \in 1..N : Abs(P.ce[k] - Start(s)) <= 1

\* walk through the series: run = total of the current season so far
Init == px \in 1..Len(Px) /\ i = 0 /\ season = MinSet({ s \in 0..(Px[px].ns + 1) : Px[px].ce[1] - (Px[px].day + s * 365) <= Px[px].step }) - 1 /\ open = FALSE /\ first = 1 /\ run = << >> /\ done = FALSE

Total(q) == SumSeq(q)
Share(q, k) == SumSeq(SubSeq(q, 1, k))
At(q, cut) == CHOOSE k \in 1..Len(q) : Share(q, k) * 1000 >= cut * Total(q) /\ \A j \in 1..(k - 1) : Share(q, j) * 1000 < cut * Total(q)
Close(q) == \E c \in 1..3, k \in 1..Len(q) : Abs(Share(q, k) * 1000 - P.cut[c] * Total(q)) <= (Total(q) \div 50) + 1
Rise(k) == IF k > 1 /\ P.v[k] > P.v[k - 1] THEN P.v[k] - P.v[k - 1] ELSE 0
Fall(k) == IF k > 1 /\ P.v[k] < P.v[k - 1] THEN P.v[k - 1] - P.v[k] ELSE 0
SumOver(a, b, F(_)) == SumSeq([k \in 1..(b - a + 1) |-> F(a + k - 1)])
MaxOver(a, b, F(_)) == IF a > b THEN 0 ELSE MaxSet({F(k) : k \in a..b})
Value(k) == P.v[k]

\* metrics of the season with the values q that began with step f and ended with step e; windows are half-open: the end belongs to what follows
Metrics(q, f, e) ==
  LET start == f - 1 + At(q, P.cut[1])
      mid == f - 1 + At(q, P.cut[2])
      end == f - 1 + At(q, P.cut[3])
      left == CHOOSE k \in f..e : P.v[k] > 0 /\ \A j \in f..(k - 1) : P.v[j] = 0
      right == IF e < N THEN e + 1 ELSE e
      peak == IF end > start THEN CHOOSE k \in start..(end - 1) : (\A j \in start..(end - 1) : P.v[j] <= P.v[k]) /\ (\A j \in start..(k - 1) : P.v[j] < P.v[k]) ELSE start
      base2 == P.v[left] + P.v[right]
      green2 == P.v[start] + P.v[end]
      Above(k) == IF 2 * P.v[k] > base2 THEN 2 * P.v[k] - base2 ELSE 0
      Below(k) == IF 2 * P.v[k] > base2 THEN base2 ELSE 2 * P.v[k]
      Green(k) == IF 2 * P.v[k] > green2 THEN 2 * P.v[k] - green2 ELSE 0
  IN [px |-> px, season |-> season, first |-> f, last |-> e, left |-> left, start |-> start, mid |-> mid, peak |-> peak, end |-> end, right |-> right,
      base2 |-> base2, green2 |-> green2, total |-> Total(q),
      above2 |-> SumOver(f, e, Above), below2 |-> SumOver(f, e, Below), greens2 |-> SumOver(start, end - 1, Green),
      rise |-> SumOver(f, e, Rise), fall |-> SumOver(f, e, Fall),
      early_rise |-> SumOver(start, mid - 1, Rise), early_max |-> MaxOver(start, mid - 1, Rise),
      late_fall |-> SumOver(mid, end - 1, Fall), late_max |-> MaxOver(mid, end - 1, Fall),
      grow |-> SumOver(start, end - 1, Value),
      bounds |-> Bounds, unclear |-> NearStart \/ ~ Ordered \/ Close(q)]

Walk ==
  /\ ~done
  /\ IF i < N /\ season < P.ns /\ i + 1 = Begin(season + 1)
     THEN \* the next season begins with the next step
       /\ IF open /\ Total(run) > 0 THEN Emit(Metrics(run, first, i)) ELSE TRUE
       /\ season' = season + 1 /\ open' = TRUE /\ first' = i + 1 /\ run' = << P.v[i + 1] >> /\ i' = i + 1 /\ UNCHANGED done
     ELSE IF i < N
     THEN run' = Append(run, P.v[i + 1]) /\ i' = i + 1 /\ UNCHANGED << season, open, first, done >>
     ELSE
       /\ IF open /\ season < P.ns /\ Total(run) > 0 THEN Emit(Metrics(run, first, N)) ELSE TRUE
       /\ done' = TRUE /\ UNCHANGED << i, season, open, first, run >>
  /\ UNCHANGED px
Next == Walk
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>done

\* whatever the series, the events of a season come in order and the parts make the whole
Events == open /\ season < P.ns /\ Total(run) > 0 /\ i > 0 =>
  LET m == Metrics(run, first, i) IN
    /\ first <= m.left /\ m.left <= m.start /\ m.start <= m.mid /\ m.mid <= m.end /\ m.end <= i
    /\ m.start <= m.peak /\ m.peak <= m.end
    /\ m.above2 + m.below2 = 2 * m.total
    /\ m.early_max <= m.early_rise /\ m.early_rise <= m.rise /\ m.late_max <= m.late_fall /\ m.late_fall <= m.fall
    /\ m.greens2 <= 2 * m.grow /\ m.grow <= m.total
\* must be violated
StartsOnTime == \A s \in 0..P.ns : Moved(s) = 0
NoSecondSeason == season < 1
=============================================================================
