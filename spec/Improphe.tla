---------------------------- MODULE Improphe ----------------------------
(* Sharpening coarse fields. For every year to predict, the acquisitions that fall into the seasonal windows of this year tell   *)
(* which pixels look alike. The value of a pixel is predicted from the coarse values, of that year, of the pixels in the circle  *)
(* around it that look like it; pixels that are masked, have no usable acquisition or lack one of the fields take no part. A      *)
(* pixel without usable acquisition keeps its coarse values, and so does the whole image in a year without acquisitions.         *)
EXTENDS Emit

Jobs == InputsFrom("JOBS")
\* job: cols, rows, radius, windows (breakpoints), years, first (year of the first band), nodata, mask,
\*      images: year, doy, look (per pixel, 0: not usable); fields[f][band][pixel]

NWin(j) == Len(j.windows) - 1

\* the window of an acquisition with respect to a year, 0: none. A window that starts late and ends early in the year begins in
\* the previous year; the last one ends in the next year instead.
InWindow(j, w, y, im) ==
  LET a == j.windows[w]
      b == j.windows[w + 1]
      back == a > b /\ (w < NWin(j) \/ NWin(j) = 1)
      on == a > b /\ w = NWin(j)
  IN \/ a < b /\ im.year = y /\ im.doy >= a /\ im.doy < b
     \/ back /\ ((im.year = y - 1 /\ im.doy >= a) \/ (im.year = y /\ im.doy < b))
     \/ on /\ ((im.year = y /\ im.doy >= a) \/ (im.year = y + 1 /\ im.doy < b))
Takes(j, y, im) == \E w \in 1 .. NWin(j) : InWindow(j, w, y, im)

Pixels(j) == 1 .. (j.cols * j.rows)
Col(j, p) == (p - 1) % j.cols
Row(j, p) == (p - 1) \div j.cols
Disc(r) == { d \in (-r .. r) \X (-r .. r) : d[1] * d[1] + d[2] * d[2] <= r * r }

VARIABLES i, year, seen, look, result
vars == <<i, year, seen, look, result>>
J == Jobs[i]

Blank(j) == [p \in Pixels(j) |-> 0]
Init == /\ i \in 1 .. Len(Jobs) /\ year = 1 /\ seen = 0 /\ look = Blank(Jobs[i]) /\ result = <<>>

Y == J.years[year]
Band == Y - J.first + 1

\* one acquisition after the other
See == /\ year <= Len(J.years) /\ seen < Len(J.images)
       /\ seen' = seen + 1
       /\ LET im == J.images[seen + 1] IN
          look' = IF Takes(J, Y, im) THEN [p \in Pixels(J) |-> IF J.mask[p] = 1 /\ im.look[p] > 0 THEN im.look[p] ELSE look[p]] ELSE look
       /\ UNCHANGED <<i, year, result>>

Complete(p) == \A f \in 1 .. Len(J.fields) : J.fields[f][Band][p] # J.nodata
Mates(p, disc) ==
  { q \in { Row(J, p) * J.cols + Col(J, p) + 1 + d[1] * J.cols + d[2] : d \in { e \in disc : /\ Row(J, p) + e[1] \in 0 .. (J.rows - 1)
                                                                                          /\ Col(J, p) + e[2] \in 0 .. (J.cols - 1) } }
      : look[q] = look[p] /\ Complete(q) }

\* kind: none (nodata), keep (coarse values), like (mean of the coarse values of the mates), part (a field is missing)
Predict(p, disc) ==
  CASE J.mask[p] # 1 -> [kind |-> "none", n |-> 0, sum |-> <<>>, low |-> <<>>, high |-> <<>>]
    [] J.mask[p] = 1 /\ ~Complete(p) -> [kind |-> "part", n |-> 0, sum |-> <<>>, low |-> <<>>, high |-> <<>>]
    [] J.mask[p] = 1 /\ Complete(p) /\ look[p] = 0 -> [kind |-> "keep", n |-> 0, sum |-> <<>>, low |-> <<>>, high |-> <<>>]
    [] OTHER -> LET m == Mates(p, disc) 
                    v(f) == { J.fields[f][Band][q] : q \in m }
                    s == SetToSeq(m)
                IN [kind |-> "like", n |-> Cardinality(m),
                    sum |-> [f \in 1 .. Len(J.fields) |-> SumSeq([k \in 1 .. Len(s) |-> J.fields[f][Band][s[k]]])],
                    low |-> [f \in 1 .. Len(J.fields) |-> MinSet(v(f))], high |-> [f \in 1 .. Len(J.fields) |-> MaxSet(v(f))]]

Write == /\ year <= Len(J.years) /\ seen = Len(J.images)
         /\ LET disc == Disc(J.radius)
                out == [p \in Pixels(J) |-> Predict(p, disc)]
            IN result' = out /\ Emit([i |-> i, year |-> Y, pixels |-> out])
         /\ year' = year + 1 /\ seen' = 0 /\ look' = Blank(J) /\ UNCHANGED i

Next == See \/ Write \/ (year > Len(J.years) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(See) /\ WF_vars(Write)

\* a pixel that looks like something is its own mate; a prediction never leaves the range of the field
Own == result # <<>> => \A p \in Pixels(J) : result[p].kind = "like" =>
         /\ result[p].n >= 1
         /\ \A f \in 1 .. Len(J.fields) : /\ result[p].n * result[p].low[f] <= result[p].sum[f]
                                          /\ result[p].sum[f] <= result[p].n * result[p].high[f]
\* masked pixels and pixels that cannot be seen never predict
Blind == \A p \in Pixels(J) : J.mask[p] # 1 => look[p] = 0
Ends == <>(year > Len(J.years))
\* expected to be violated: no acquisition is left out
NeverOut == ~(seen > 0 /\ ~Takes(J, Y, J.images[seen]))
=========================================================================
