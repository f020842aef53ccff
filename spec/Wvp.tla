------------------------------ MODULE Wvp ------------------------------
(* Tables of water vapour. For every day without a table, and for every requested place, the daytime granules of each satellite    *)
(* that reach into the box around the place are read one after the other - or only the first one that holds the whole box - and     *)
(* the usable pixels in the box are averaged, if they are at least a tenth of all pixels in the box. The satellite with more pixels *)
(* is used, Terra if in doubt; before Aqua was there, only Terra. The climatology has the mean, spread and number of all daily       *)
(* values of a month of the year. Angles are in hundredths of degrees.                                                               *)
EXTENDS Emit

Jobs == InputsFrom("JOBS")
\* job: places [x, y]; days [aqua, exists, granules]; tables [month, values]
\* granule: sat, day, polar, listed, ring << UL, UR, LR, LL >>, cols, rows, xoff, yoff, ccols, lon, lat (per cell), value, usable, fill (per pixel)
Half == 75

\* position of edge a--b at height y (times the extent of the edge) compared with x
Sgn(n) == IF n < 0 THEN -1 ELSE 1
\* x < edge at y
LeftOf(a, b, x, y) == LET d == b.y - a.y IN x * d * Sgn(d) < (a.x * (b.y - y) + b.x * (y - a.y)) * Sgn(d)
RightOf(a, b, x, y) == LET d == b.y - a.y IN x * d * Sgn(d) > (a.x * (b.y - y) + b.x * (y - a.y)) * Sgn(d)
\* y below / above edge at x
Below(a, b, x, y) == LET d == b.x - a.x IN y * d * Sgn(d) < (a.y * (b.x - x) + b.y * (x - a.x)) * Sgn(d)
Above(a, b, x, y) == LET d == b.x - a.x IN y * d * Sgn(d) > (a.y * (b.x - x) + b.y * (x - a.x)) * Sgn(d)

Reaches(p, g) ==
  LET w == p.x - Half  e == p.x + Half  n == p.y + Half  s == p.y - Half
      ul == g.ring[1]  ur == g.ring[2]  lr == g.ring[3]  ll == g.ring[4]
  IN /\ \E y \in {n, s} : LeftOf(ur, lr, w, y)
     /\ \E y \in {n, s} : RightOf(ul, ll, e, y)
     /\ \E x \in {w, e} : Above(ll, lr, x, n)
     /\ \E x \in {w, e} : Below(ul, ur, x, s)
Holds(p, g) ==
  LET w == p.x - Half  e == p.x + Half  n == p.y + Half  s == p.y - Half
      ul == g.ring[1]  ur == g.ring[2]  lr == g.ring[3]  ll == g.ring[4]
  IN /\ \A y \in {n, s} : LeftOf(ur, lr, e, y)
     /\ \A y \in {n, s} : RightOf(ul, ll, w, y)
     /\ \A x \in {w, e} : Above(ll, lr, x, s)
     /\ \A x \in {w, e} : Below(ul, ur, x, n)
Use(p, gs, sat) ==
  LET c == { k \in 1 .. Len(gs) : gs[k].sat = sat /\ gs[k].day /\ ~gs[k].polar /\ Reaches(p, gs[k]) }
      h == { k \in c : Holds(p, gs[k]) }
  IN IF Cardinality(c) > 1 /\ h # {} THEN { MinSet(h) } ELSE c

\* pixel k of a granule: the cell it belongs to
InBox(p, g, k) ==
  LET x == (k - 1) % g.cols
      y == (k - 1) \div g.cols
      cell == ((y - g.yoff) \div 5) * g.ccols + ((x - g.xoff) \div 5) + 1
  IN /\ x >= g.xoff /\ y >= g.yoff
     /\ g.lon[cell] >= p.x - Half /\ g.lon[cell] <= p.x + Half /\ g.lat[cell] >= p.y - Half /\ g.lat[cell] <= p.y + Half
Sums(p, g) ==
  LET box == SelectSeq([k \in 1 .. (g.cols * g.rows) |-> k], LAMBDA k : InBox(p, g, k))
      ok == SelectSeq(box, LAMBDA k : g.usable[k] = 1 /\ g.value[k] # g.fill)
  IN [all |-> Len(box), n |-> Len(ok), sum |-> SumSeq([k \in 1 .. Len(ok) |-> g.value[ok[k]]])]

VARIABLES i, day, place, left, acc, done
vars == <<i, day, place, left, acc, done>>
J == Jobs[i]
Zero == [all |-> 0, n |-> 0, sum |-> 0]
None == [MOD |-> Zero, MYD |-> Zero]

Start(j, d, p) == [s \in {"MOD", "MYD"} |-> IF s = "MYD" /\ ~j.days[d].aqua THEN {} ELSE Use(j.places[p], j.days[d].granules, s)]
First(j, d, p) == IF d <= Len(j.days) /\ ~j.days[d].exists THEN Start(j, d, p) ELSE [s \in {"MOD", "MYD"} |-> {}]

Init == i \in 1 .. Len(Jobs) /\ day = 1 /\ place = 1 /\ left = First(Jobs[i], 1, 1) /\ acc = None /\ done = <<>>

Working == day <= Len(J.days) /\ ~J.days[day].exists /\ place <= Len(J.places)
\* read one granule; one that is not listed cannot be had
Granule == /\ Working
           /\ \E s \in {"MOD", "MYD"} : /\ left[s] # {} /\ (s = "MYD" => left["MOD"] = {})
                 /\ LET k == MinSet(left[s])
                        g == J.days[day].granules[k]
                        v == IF g.listed THEN Sums(J.places[place], g) ELSE Zero
                    IN /\ acc' = [acc EXCEPT ![s] = [all |-> @.all + v.all, n |-> @.n + v.n, sum |-> @.sum + v.sum]]
                       /\ left' = [left EXCEPT ![s] = @ \ {k}]
           /\ UNCHANGED <<i, day, place, done>>
Known(a) == a.all > 0 /\ 10 * a.n >= a.all
Choice == IF Known(acc.MOD) /\ (~Known(acc.MYD) \/ acc.MOD.all >= acc.MYD.all) THEN "MOD"
          ELSE IF Known(acc.MYD) THEN "MYD" ELSE "TBD"
Place == /\ Working /\ left["MOD"] = {} /\ left["MYD"] = {}
         /\ LET c == Choice IN done' = Append(done, [sat |-> c, n |-> IF c = "TBD" THEN 0 ELSE acc[c].n, sum |-> IF c = "TBD" THEN 0 ELSE acc[c].sum])
         /\ place' = place + 1 /\ acc' = None
         /\ left' = IF place' <= Len(J.places) THEN First(J, day, place') ELSE [s \in {"MOD", "MYD"} |-> {}]
         /\ UNCHANGED <<i, day>>
NextDay == /\ day <= Len(J.days) /\ (J.days[day].exists \/ place > Len(J.places))
           /\ Emit([i |-> i, day |-> day, exists |-> J.days[day].exists, places |-> done])
           /\ day' = day + 1 /\ place' = 1 /\ left' = First(J, day', 1) /\ acc' = None /\ done' = <<>> /\ UNCHANGED i

\* climatology of the tables that are there (values in hundredths, -1: none)
Month(j, m, p) ==
  LET t == SelectSeq(j.tables, LAMBDA x : x.month = m /\ x.values[p] >= 0)
  IN [n |-> Len(t), sum |-> SumSeq([k \in 1 .. Len(t) |-> t[k].values[p]]), squares |-> SumSeq([k \in 1 .. Len(t) |-> t[k].values[p] * t[k].values[p]])]
Climatology == /\ day = Len(J.days) + 1
               /\ Emit([i |-> i, day |-> 0, months |-> [m \in 1 .. 12 |-> [p \in 1 .. Len(J.places) |-> Month(J, m, p)]]])
               /\ day' = day + 1 /\ UNCHANGED <<i, place, left, acc, done>>
Next == Granule \/ Place \/ NextDay \/ Climatology \/ (day > Len(J.days) + 1 /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Granule) /\ WF_vars(Place) /\ WF_vars(NextDay) /\ WF_vars(Climatology)

\* a granule that holds the box reaches into it
ASSUME \A k \in 1 .. Len(Jobs) : \A d \in 1 .. Len(Jobs[k].days) : \A g \in 1 .. Len(Jobs[k].days[d].granules) : \A p \in 1 .. Len(Jobs[k].places) :
         Holds(Jobs[k].places[p], Jobs[k].days[d].granules[g]) => Reaches(Jobs[k].places[p], Jobs[k].days[d].granules[g])
Sane == \A s \in {"MOD", "MYD"} : acc[s].n <= acc[s].all
Before == (day <= Len(J.days) /\ ~J.days[day].aqua) => acc.MYD = Zero
Ends == <>(day > Len(J.days) + 1)
\* expected to be violated: one granule is enough for a place
Single == \A s \in {"MOD", "MYD"} : Cardinality(left[s]) <= 1
=========================================================================
