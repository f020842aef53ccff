------------------------- MODULE Composite -------------------------
(* Best available pixel composites.  For every pixel each clear observation gets scores: for its day (distance to the closest of the
   yearly targets), for its year (distance to the target year, expressed as days of the season), and for its surroundings
   (cloud distance, haze, correlation, view zenith).  The total combines the weighted scores.  Candidates are the observations that
   are in season and neither cloudy nor hazy, unless these are asked for; the composite is one candidate with the highest total, and
   the information describes it.  Pixels that are water most of the time prefer dark shortwave infrared instead.
   Scores are in millionths; the exponential curves come as tables: tabs is a sequence of [ width, values for 0, 1, 2, ... days ].
   Days count from year 0 with 365 days per year. *)
EXTENDS Emit, Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
One == 1000000
Low == 10000                \* a score of one per cent
Near == 5                   \* scores cannot be told apart below this
Jobs == InputsFrom("JOBS")
VARIABLES k, ok
vars == << k, ok >>

\* three days per year of the compositing period: around the turn of the year the first is in the year before, the last in the year after
YearsOf(j) == [ i \in 1..(2 * j.yearNum + 1) |-> j.year - j.yearNum + i - 1 ]
Static(j) == LET d == j.doy IN [ i \in 1..(2 * j.yearNum + 1) |-> LET y == YearsOf(j)[i] IN
               << (IF d[1] > d[2] THEN y - 1 ELSE y) * 365 + d[1], y * 365 + d[2], (IF d[3] < d[2] THEN y + 1 ELSE y) * 365 + d[3] >> ]
Targets(j, p) == IF j.phenology THEN p.targets ELSE Static(j)
Curve(j, w, x) == LET t == (CHOOSE t \in ToSet(j.tabs) : t[1] = w)[2] IN IF x + 1 > Len(t) THEN 0 ELSE t[x + 1]

\* the closest yearly target of a day
Closest(ts, day) == CHOOSE i \in 1..Len(ts) : \A m \in 1..Len(ts) : Abs(day - ts[i][2]) < Abs(day - ts[m][2]) \/ (Abs(day - ts[i][2]) = Abs(day - ts[m][2]) /\ i <= m)
Day(j, ts, o) == LET t == ts[Closest(ts, o.day)] IN o.day - t[2]
Width(j, ts, o) == LET t == ts[Closest(ts, o.day)] IN IF o.day < t[2] THEN t[2] - t[1] ELSE t[3] - t[2]
SeasonScore(j, ts, o) == IF j.w.d = 0 THEN 0 ELSE Curve(j, Width(j, ts, o), Abs(Day(j, ts, o)))
YearScore(j, ts, o) == LET w == Width(j, ts, o) slice == (w * 100) \div ((j.yearNum + 1) * j.yearFactor) IN
                       IF j.w.y = 0 THEN 0 ELSE Curve(j, w, Abs(o.year - j.year) * slice)
Times(a, b) == ((a \div 1000) * b) \div 1000 + ((a % 1000) * b) \div One         \* product of two scores
Scores(j, ts, o) == << SeasonScore(j, ts, o), YearScore(j, ts, o), o.c, o.h, o.r, o.v >>
Weights(j) == << j.w.d, j.w.y, j.w.c, j.w.h, j.w.r, j.w.v >>                     \* per cent
Total(j, s) ==
  LET w == Weights(j) used == SelectSeq(<< 1, 2, 3, 4, 5, 6 >>, LAMBDA i : w[i] > 0)
  IN IF j.add THEN FoldSeq(LAMBDA i, acc : acc + w[i] * s[i], 0, used) \div FoldSeq(LAMBDA i, acc : acc + w[i], 0, used)
     ELSE FoldSeq(LAMBDA i, acc : Times(acc, (w[i] * s[i]) \div 100), One, used)
WaterScore(o) == LET t == (10000 - o.swir) * 100 IN IF o.nir < o.swir THEN t \div 2 ELSE t

Pixel(j, p) ==
  LET ts == Targets(j, p)
      known == ts # << >>                                          \* without a target there is nothing to look for
      N == Len(p.obs)
      clear == { i \in 1..N : p.obs[i].ok }
      water == clear # {} /\ 10 * Cardinality({ i \in clear : p.obs[i].water }) > 9 * Cardinality(clear)
      sc == [ i \in 1..N |-> IF i \in clear /\ known THEN Scores(j, ts, p.obs[i]) ELSE << 0, 0, 0, 0, 0, 0 >> ]
      tot == [ i \in 1..N |-> IF i \notin clear \/ ~ known THEN 0 ELSE IF water THEN WaterScore(p.obs[i]) ELSE Total(j, sc[i]) ]
      season == { i \in clear : j.offSeason \/ sc[i][1] >= Low }
      \* haze is only a reason where the scores differ at all
      hz == [ i \in season |-> sc[i][4] \div 100 ]
      hn == Cardinality(season)
      hm == IF hn = 0 THEN 0 ELSE FoldSet(LAMBDA i, acc : acc + hz[i], 0, season) \div hn
      hv == IF hn < 2 THEN 0 ELSE FoldSet(LAMBDA i, acc : acc + (hz[i] - hm) * (hz[i] - hm), 0, season) \div (hn - 1)
      differs == hm > 100 /\ hv > 10000
      hazy == { i \in season : ~ j.useHazy /\ j.w.h > 0 /\ sc[i][4] < Low /\ differs }
      cloudy == { i \in season : ~ j.useCloudy /\ j.w.c > 0 /\ sc[i][3] < Low }
      cand == IF known THEN (season \ hazy) \ cloudy ELSE {}
      best == IF cand = {} THEN 0 ELSE Max({ tot[i] : i \in cand })
      near(x) == Abs(x - Low) <= Near
      unclear == \/ ~ known /\ j.offSeason               \* nothing is said about what is taken without a target
                 \/ \E i \in clear : \/ ~ j.offSeason /\ near(sc[i][1])
                                     \/ ~ j.useCloudy /\ j.w.c > 0 /\ near(sc[i][3])
                                     \/ ~ j.useHazy /\ j.w.h > 0 /\ (near(sc[i][4]) \/ (hm \in 98..102) \/ (hv \in 8000..12500))
  IN [ num |-> Cardinality(cand), best |-> { i \in cand : tot[i] >= best - Near }, cand |-> cand, water |-> water, unclear |-> unclear,
       total |-> tot, scores |-> sc, dist |-> [ i \in 1..N |-> IF known THEN Day(j, ts, p.obs[i]) ELSE 0 ] ]

Init == k = 0 /\ ok = TRUE
Next == /\ k < Len(Jobs) /\ k' = k + 1
        /\ LET j == Jobs[k'] out == [ p \in 1..Len(j.pixels) |-> Pixel(j, j.pixels[p]) ]
           IN /\ Emit([ id |-> j.id, out |-> out ])
              /\ ok' = \A p \in 1..Len(out) :
                         LET o == out[p] obs == j.pixels[p].obs
                         IN /\ (o.best = {}) = (o.num = 0) /\ \A i \in o.best : obs[i].ok                                 \* only clear observations are chosen
                            /\ \A i \in 1..Len(obs) : i \in o.cand => o.total[i] <= o.total[CHOOSE b \in o.best : TRUE] + Near
Spec == Init /\ [][Next]_vars
ChosenIsBest == ok
NeverSeveral == k > 0 => \A p \in 1..Len(Jobs[k].pixels) : Cardinality(Pixel(Jobs[k], Jobs[k].pixels[p]).best) <= 1   \* violated: equal scores
=====================================================================
