---------------------------- MODULE TimeSeries ----------------------------
(* Time series analysis of one pixel, as a pipeline of stages:
     acquired observations -> screened series -> interpolated series -> statistics and folds -> trends.
   The driver supplies configurations (acquisition dates, alternatives for each observation, parameters); every
   combination of observations is one behaviour. It is replayed as one pixel of one real run.

   configuration: dates   << <<y,m,d>>, ... >> chronological     alt     alternatives per date: a value, or
                  <<"n">> no data in the reflectance, <<"f", v>> value v flagged by a chosen condition, <<"v", v>>,
                  <<"g", v>> value v with quality bits that were not chosen
                  from, to (dates)  doy <<lo,hi>>  method NONE/LINEAR/MOVING/RBF  step  mov  stm <<names>>  fold name
                  kern  weights of each Gaussian kernel for distances of 0, 1, ... days, as far as it reaches (RBF)
                  std   << series, interpolated series, folds >> NONE/CENTER/NORMALIZE: standardisation of the products
                  emit  set of products the driver wants to see *)
EXTENDS Calendar, Stats

NODATA == -9999
Cfgs == InputsFrom("CFGS")
NC == Len(Cfgs)

NumSteps(c) == LET n == Ce(c.to) - Ce(c.from) + 1 IN n \div c.step

\* days on which the series that enters statistics is defined
SeriesDates == [ k \in 1..NC |-> LET c == Cfgs[k] IN
   IF c.method = "NONE" THEN c.dates ELSE [ i \in 1..NumSteps(c) |-> DateOfCe(Ce(c.from) + (i - 1) * c.step) ] ]
ObsCe == [ k \in 1..NC |-> [ t \in 1..Len(Cfgs[k].dates) |-> Ce(Cfgs[k].dates[t]) ] ]
SerCe == [ k \in 1..NC |-> [ i \in 1..Len(SeriesDates[k]) |-> Ce(SeriesDates[k][i]) ] ]
Days == [ k \in 1..NC |-> DoyRange(Cfgs[k].doy[1], Cfgs[k].doy[2]) ]

Folds == << "FBY", "FBQ", "FBM", "FBW", "FBD" >>
Periods == [ k \in 1..NC |->
  [ FBY |-> [ i \in 1..(Cfgs[k].to[1] - Cfgs[k].from[1] + 1) |-> Cfgs[k].from[1] + i - 1 ],
    FBQ |-> SortSet({ QuarterOfDoy(d) : d \in Days[k] }),
    FBM |-> SortSet({ MonthOfDoy(d) : d \in Days[k] }),
    FBW |-> SortSet({ WeekOfDoy(d) : d \in Days[k] }),
    FBD |-> SortSet(Days[k]) ] ]
PeriodOf(fold, t) == CASE fold = "FBY" -> t[1] [] fold = "FBQ" -> Quarter(t) [] fold = "FBM" -> t[2]
                       [] fold = "FBW" -> Week(t) [] fold = "FBD" -> Doy(t)
SerPeriod == [ k \in 1..NC |-> [ f \in Range(Folds) |-> [ i \in 1..Len(SeriesDates[k]) |-> PeriodOf(f, SeriesDates[k][i]) ] ] ]

VARIABLES cfg, obs, stage, tss, tsi, stm, fold, trend
vars == << cfg, obs, stage, tss, tsi, stm, fold, trend >>

C == Cfgs[cfg]
NT == Len(C.dates)
Wants(p) == p \in Range(C.emit)

----------------------------------------------------------------------------
Init == /\ cfg \in 1..NC
        /\ obs \in { o \in [ 1..Len(Cfgs[cfg].dates) -> 1..Cfgs[cfg].nalt ] : TRUE }
        /\ stage = "acquired"
        /\ tss = <<>> /\ tsi = <<>> /\ stm = <<>> /\ fold = <<>> /\ trend = <<>>

Screened(a) == IF a[1] \in {"v", "g"} THEN a[2] ELSE NODATA

Screen == /\ stage = "acquired"
          /\ tss' = [ t \in 1..NT |-> Screened(C.alt[t][obs[t]]) ]
          /\ stage' = "screened"
          /\ UNCHANGED << cfg, obs, tsi, stm, fold, trend >>

Valid == { t \in 1..NT : tss[t] # NODATA }
Latest(S) == { t \in S : \A u \in S : ObsCe[cfg][u] <= ObsCe[cfg][t] }
Earliest(S) == { t \in S : \A u \in S : ObsCe[cfg][u] >= ObsCe[cfg][t] }

\* admissible values <<n, d>> on day x (several only if two sensors observed on the same day); {} means nodata
Linear(x) ==
  LET L == Latest({ t \in Valid : ObsCe[cfg][t] < x })
      R == Earliest({ t \in Valid : ObsCe[cfg][t] > x })
      E == { t \in Valid : ObsCe[cfg][t] = x }
  IN IF E # {} THEN { << tss[t], 1 >> : t \in E }
     ELSE IF L = {} THEN { << tss[t], 1 >> : t \in R }
     ELSE IF R = {} THEN { << tss[t], 1 >> : t \in L }
     ELSE { LET xl == ObsCe[cfg][p[1]]  xr == ObsCe[cfg][p[2]]
            IN << tss[p[1]] * (xr - x) + tss[p[2]] * (x - xl), xr - xl >> : p \in L \X R }
Moving(x) ==
  LET W == { t \in Valid : Abs(ObsCe[cfg][t] - x) <= C.mov }
  IN IF W = {} THEN {} ELSE { << SumSeq([ i \in 1..NT |-> IF i \in W THEN tss[i] ELSE 0 ]), Cardinality(W) >> }

\* mean weighted by the Gaussian kernels, each of which reaches as far as its cut-off
Reach(x, k) == { t \in Valid : Abs(ObsCe[cfg][t] - x) < Len(C.kern[k]) }
Weight(x, t) == SumSeq([ k \in 1..Len(C.kern) |-> IF t \in Reach(x, k) THEN C.kern[k][Abs(ObsCe[cfg][t] - x) + 1] ELSE 0 ])
Gauss(x) ==
  LET w == [ t \in 1..NT |-> IF t \in Valid THEN Weight(x, t) ELSE 0 ]
      d == SumSeq(w)
  IN IF d = 0 THEN {} ELSE { << SumSeq([ t \in 1..NT |-> w[t] * (IF w[t] = 0 THEN 0 ELSE tss[t]) ]), d >> }

Interpolate == /\ stage = "screened"
               /\ tsi' = [ i \in 1..Len(SerCe[cfg]) |->
                     CASE C.method = "NONE" -> IF tss[i] = NODATA THEN {} ELSE { << tss[i], 1 >> }
                       [] C.method = "LINEAR" -> Linear(SerCe[cfg][i])
                       [] C.method = "MOVING" -> Moving(SerCe[cfg][i])
                       [] C.method = "RBF" -> Gauss(SerCe[cfg][i]) ]
               /\ stage' = "interpolated"
               /\ UNCHANGED << cfg, obs, tss, stm, fold, trend >>

\* the series as integers (statistics are only evaluated for configurations in which it is integer and unique)
IntAt(i) == LET p == CHOOSE q \in tsi[i] : TRUE IN p[1] \div p[2]
Exact == \A i \in 1..Len(tsi) : Cardinality(tsi[i]) <= 1 /\ \A p \in tsi[i] : p[1] % p[2] = 0
RECURSIVE Vals(_, _)
Vals(S, i) == IF i > Len(tsi) THEN <<>> ELSE (IF i \in S /\ tsi[i] # {} THEN << IntAt(i) >> ELSE <<>>) \o Vals(S, i + 1)

Aggregate == /\ stage = "interpolated"
             /\ stm' = IF Wants("STM") THEN LET v == Vals(1..Len(tsi), 1) IN [ b \in 1..Len(C.stm) |-> Stat(C.stm[b], v) ] ELSE <<>>
             /\ fold' = [ f \in Range(Folds) |-> IF ~ Wants(f) THEN <<>> ELSE
                    [ b \in 1..Len(Periods[cfg][f]) |->
                       Stat(C.fold, Vals({ i \in 1..Len(tsi) : SerPeriod[cfg][f][i] = Periods[cfg][f][b] }, 1)) ] ]
             /\ stage' = "aggregated"
             /\ UNCHANGED << cfg, obs, tss, tsi, trend >>

RECURSIVE Points(_, _, _)
Points(f, s, i) == IF i > Len(s) THEN <<>> ELSE
   (IF s[i][1] = 1 THEN << << Periods[cfg][f][i] - Periods[cfg][f][1], s[i][2] >> >> ELSE <<>>) \o Points(f, s, i + 1)
TrendOf(f) == LET P == Points(f, fold[f], 1) IN IF Len(P) < 3 THEN [ n |-> 0 ] ELSE Ols(P)

RECURSIVE Select(_)
Select(s) == IF s = <<>> THEN <<>> ELSE (IF Head(s)[1] = 1 THEN << Head(s)[2] >> ELSE <<>>) \o Select(Tail(s))
\* products are standardised at last: nothing else is derived from the standardised values
Standard(how, s) ==                                                \* s: sequence of <<0>> (none) or << 1, value, 1 >>
  LET v == Select(s)  n == Len(v)  sum == SumSeq(v)  ss == PowSum(v, 1, 0, 2)
  IN [ i \in 1..Len(s) |->
       IF s[i][1] # 1 THEN s[i]
       ELSE IF n < 2 THEN << 9 >>                                  \* nothing is said about a single value
       ELSE IF how = "CENTER" THEN << 1, n * s[i][2] - sum, n >>
       ELSE IF n * ss = sum * sum THEN << 9 >> ELSE << 6, n * s[i][2] - sum, n, n * ss - sum * sum >> ]
Whole(s) == [ i \in 1..Len(s) |-> IF s[i] = {} THEN << 0 >> ELSE << 1, (CHOOSE p \in s[i] : TRUE)[1] \div (CHOOSE p \in s[i] : TRUE)[2], 1 >> ]
Standardised ==
  [ TSS |-> IF C.std[1] = "NONE" \/ ~ Wants("TSS") THEN <<>> ELSE Standard(C.std[1], [ t \in 1..NT |-> IF tss[t] = NODATA THEN << 0 >> ELSE << 1, tss[t], 1 >> ]),
    TSI |-> IF C.std[2] = "NONE" \/ ~ Wants("TSI") THEN <<>> ELSE Standard(C.std[2], Whole(tsi)) ] @@
  [ f \in Range(Folds) |-> IF C.std[3] = "NONE" \/ ~ Wants(f) THEN <<>> ELSE Standard(C.std[3], fold[f]) ]

Trends == /\ stage = "aggregated"
          /\ trend' = [ f \in Range(Folds) |-> IF Wants("T" \o f) THEN TrendOf(f) ELSE [ n |-> 0 ] ]
          /\ stage' = "done"
          /\ UNCHANGED << cfg, obs, tss, tsi, stm, fold >>
          /\ Emit([ cfg |-> cfg, obs |-> obs, tss |-> IF Wants("TSS") THEN tss ELSE <<>>,
                    tsi |-> IF Wants("TSI") THEN tsi ELSE <<>>, stm |-> stm, fold |-> fold, trend |-> trend', std |-> Standardised ])

Next == Screen \/ Interpolate \/ Aggregate \/ Trends
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* a screened series holds exactly the observations that are neither missing nor flagged
ScreenedExactly == stage # "acquired" => \A t \in 1..NT : (tss[t] # NODATA) <=> (C.alt[t][obs[t]][1] \in {"v", "g"})

\* interpolation never leaves the range of the observations and only fails without observations
Bounded == stage \in {"interpolated", "aggregated", "done"} => \A i \in 1..Len(tsi) : \A p \in tsi[i] :
              /\ p[1] >= MinSet({ tss[t] : t \in Valid }) * p[2]
              /\ p[1] <= MaxSet({ tss[t] : t \in Valid }) * p[2]
LinearTotal == (stage = "interpolated" /\ C.method = "LINEAR") => \A i \in 1..Len(tsi) : (tsi[i] = {}) <=> (Valid = {})
\* every kernel that reaches an observation yields a value
GaussTotal == (stage = "interpolated" /\ C.method = "RBF") =>
              \A i \in 1..Len(tsi) : (tsi[i] # {}) <=> \E k \in 1..Len(C.kern) : Reach(SerCe[cfg][i], k) # {}
HonoursObservations == (stage = "interpolated" /\ C.method = "LINEAR") =>
              \A i \in 1..Len(tsi) : \A t \in Valid : ObsCe[cfg][t] = SerCe[cfg][i] => << tss[t], 1 >> \in tsi[i]

\* each value of the series belongs to one period at most, and periods are ascending
ASSUME \A k \in 1..NC : \A f \in Range(Folds) : \A a \in 1..(Len(Periods[k][f]) - 1) : Periods[k][f][a] < Periods[k][f][a + 1]
RECURSIVE CountUp(_)
CountUp(s) == IF s = <<>> THEN 0 ELSE (IF Head(s)[1] = 1 THEN Head(s)[2] ELSE 0) + CountUp(Tail(s))
Partition == (stage = "aggregated" /\ C.fold = "NUM") => \A f \in Range(Folds) : Wants(f) =>
              CountUp(fold[f]) = Cardinality({ i \in 1..Len(tsi) : tsi[i] # {} /\ SerPeriod[cfg][f][i] \in Range(Periods[cfg][f]) })
\* centred values sum up to zero
Centred == (stage = "done" /\ C.std[1] = "CENTER" /\ Wants("TSS")) =>
              LET z == Standardised.TSS IN SumSeq([ i \in 1..Len(z) |-> IF z[i][1] = 1 THEN z[i][2] ELSE 0 ]) = 0
ExactWhenAggregated == (stage = "interpolated" /\ (Wants("STM") \/ Wants("FBY") \/ Wants("FBM"))) => Exact
TypeOK == stage \in {"acquired", "screened", "interpolated", "aggregated", "done"}
=====================================================================
