---------------------------- MODULE Sharpen ----------------------------
(* Sharpening the 20 m bands of Sentinel-2 with its 10 m bands. A patch of pixels lies in even surroundings of value 0 (all numbers are relative to    *)
(* these, in ten thousandths). Row by row, every pixel gets a verdict per 20 m band for each method: it keeps its number, or lies between the numbers   *)
(* of those neighbours that are most similar in the 10 m bands, or is left open.                                                                      *)
EXTENDS Emit

Jobs == InputsFrom("JOBS")
\* patch: n; fine: three grids (sequences of rows) of 10 m values; coarse: grids of 20 m values (given at 10 m); off: grid of 0 or 1 (no data, cloud or shadow);
\* linear: the 20 m values are a linear function of the 10 m values
VARIABLES i, row, out
vars == <<i, row, out>>
J == Jobs[i]
N == J.n
In(y, x) == y \in 1 .. N /\ x \in 1 .. N
Fine(b, y, x) == IF In(y, x) THEN J.fine[b][y][x] ELSE 0
Coarse(b, y, x) == IF In(y, x) THEN J.coarse[b][y][x] ELSE 0
Off(y, x) == In(y, x) /\ J.off[y][x] = 1
A(v) == IF v < 0 THEN -v ELSE v
\* similarity in the 10 m bands: sum of three absolute differences, and the classes of similarity
Thresholds == << 75, 150, 300, 600, 750 >>
Diff(y, x, v, u) == A(Fine(1, y, x) - Fine(1, v, u)) + A(Fine(2, y, x) - Fine(2, v, u)) + A(Fine(3, y, x) - Fine(3, v, u))
Disc == { d \in (-2 .. 2) \X (-2 .. 2) : d[1] * d[1] + d[2] * d[2] <= 4 }
Near(y, x) == { d \in Disc : ~Off(y + d[1], x + d[2]) }
Enough == 3
Similar(y, x) ==
  LET near == Near(y, x)
      diff == [d \in near |-> Diff(y, x, y + d[1], x + d[2])]
      class(k) == { d \in near : diff[d] < Thresholds[k] }
      good == { k \in 1 .. 5 : Cardinality(class(k)) >= Enough }
  IN class(IF good = {} THEN 5 ELSE MinSet(good))
Bands == 1 .. Len(J.coarse)
Between(y, x) ==
  LET s == Similar(y, x) IN
  [b \in Bands |-> LET v == { Coarse(b, y + d[1], x + d[2]) : d \in s } IN << MinSet(v), MaxSet(v) >>]
Square(r) == (-r .. r) \X (-r .. r)
\* everything around is even and valid
Even(y, x) == \A d \in Square(4) : LET v == y + d[1] u == x + d[2] IN
               ~Off(v, u) /\ (\A b \in 1 .. 3 : Fine(b, v, u) = Fine(b, y, x)) /\ (\A b \in Bands : Coarse(b, v, u) = Coarse(b, y, x))
\* the relation of the bands is the same everywhere around
Lawful(y, x) == J.linear /\ \A d \in Square(2) : In(y + d[1], x + d[2]) /\ ~Off(y + d[1], x + d[2])
Cell(y, x) == IF Off(y, x) THEN [off |-> 1, even |-> 0, lawful |-> 0, between |-> << >>]
              ELSE [off |-> 0, even |-> IF Even(y, x) THEN 1 ELSE 0, lawful |-> IF Lawful(y, x) THEN 1 ELSE 0, between |-> Between(y, x)]
Init == i \in 1 .. Len(Jobs) /\ row = 1 /\ out = << >>
Row == row <= N /\ out' = Append(out, [x \in 1 .. N |-> Cell(row, x)]) /\ row' = row + 1 /\ UNCHANGED i
Tell == row = N + 1 /\ Emit([i |-> i, out |-> out]) /\ row' = N + 2 /\ UNCHANGED <<i, out>>
Next == Row \/ Tell \/ (row = N + 2 /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* a pixel is always similar to itself, so its own number is possible, and even surroundings leave nothing but this number
Own == \A y \in 1 .. Len(out) : \A x \in 1 .. N : LET c == out[y][x] IN c.off = 0 =>
         \A b \in Bands : c.between[b][1] <= Coarse(b, y, x) /\ Coarse(b, y, x) <= c.between[b][2] /\ (c.even = 1 => c.between[b][1] = c.between[b][2])
Ends == <>(row = N + 2)
\* expected to be violated: sharpening has something to choose from
Nothing == \A y \in 1 .. Len(out) : \A x \in 1 .. N : LET c == out[y][x] IN c.off = 0 => \A b \in Bands : c.between[b][1] = c.between[b][2]
=========================================================================
