---------------------------- MODULE Stats ----------------------------
(* Statistics over a finite sequence of integers, exact. A result is <<kind, ...>>:
     <<0>> no value, <<1, n, d>> the rational n/d, <<2, n, d>> the square root of n/d,
     <<3, a2, a3, n>> skewness and <<4, a2, a4, n>> excess kurtosis from sums of powers, <<9>> undefined *)
EXTENDS Emit

RECURSIVE Insert(_, _)
Insert(s, x) == IF s = <<>> THEN <<x>> ELSE IF x <= Head(s) THEN <<x>> \o s ELSE <<Head(s)>> \o Insert(Tail(s), x)
RECURSIVE SortSeq2(_)
SortSeq2(s) == IF s = <<>> THEN <<>> ELSE Insert(SortSeq2(Tail(s)), Head(s))

RECURSIVE PowSum(_, _, _, _)
PowSum(s, n, m, e) == IF s = <<>> THEN 0 ELSE LET z == n * Head(s) - m IN
   (CASE e = 2 -> z * z [] e = 3 -> z * z * z [] OTHER -> z * z * z * z) + PowSum(Tail(s), n, m, e)

\* percentile p (1..99) with linear interpolation between order statistics
Quantile(s, p) ==
  LET o == SortSeq2(s)  n == Len(s)  k == p * (n - 1)  lo == k \div 100  f == k % 100
  IN IF lo + 2 > n THEN << 1, o[n], 1 >> ELSE << 1, (100 - f) * o[lo + 1] + f * o[lo + 2], 100 >>

Stat(type, s) ==
  IF s = <<>> THEN <<0>> ELSE
  LET n == Len(s)  sum == SumSeq(s)  S == { s[i] : i \in 1..n } IN
  CASE type = "NUM" -> << 1, n, 1 >>
    [] type = "MIN" -> << 1, MinSet(S), 1 >>
    [] type = "MAX" -> << 1, MaxSet(S), 1 >>
    [] type = "RNG" -> << 1, MaxSet(S) - MinSet(S), 1 >>
    [] type = "AVG" -> << 1, sum, n >>
    [] type = "STD" -> IF n < 2 THEN <<9>> ELSE << 2, PowSum(s, n, sum, 2), n * n * (n - 1) >>
    [] type = "SKW" -> LET a == PowSum(s, n, sum, 2) IN IF a = 0 THEN <<9>> ELSE << 3, a, PowSum(s, n, sum, 3), n >>
    [] type = "KRT" -> LET a == PowSum(s, n, sum, 2) IN IF a = 0 THEN <<9>> ELSE << 4, a, PowSum(s, n, sum, 4), n >>
    [] type = "IQR" -> LET a == Quantile(s, 25)  b == Quantile(s, 75)
                       IN << 1, (IF b[3] = 1 THEN 100 * b[2] ELSE b[2]) - (IF a[3] = 1 THEN 100 * a[2] ELSE a[2]), 100 >>
    [] type = "Q05" -> Quantile(s, 5)
    [] type = "Q10" -> Quantile(s, 10)
    [] type = "Q25" -> Quantile(s, 25)
    [] type = "Q33" -> Quantile(s, 33)
    [] type = "Q50" -> Quantile(s, 50)
    [] type = "Q75" -> Quantile(s, 75)
    [] type = "Q90" -> Quantile(s, 90)
    [] type = "Q99" -> Quantile(s, 99)

\* ordinary least squares of the points P = sequence of <<x, y>>
RECURSIVE SumXY(_, _)
SumXY(P, k) == IF P = <<>> THEN 0 ELSE LET x == Head(P)[1]  y == Head(P)[2] IN
   (CASE k = "x" -> x [] k = "y" -> y [] k = "xx" -> x * x [] k = "xy" -> x * y [] k = "yy" -> y * y) + SumXY(Tail(P), k)
Ols(P) == LET k == Len(P)  sx == SumXY(P, "x")  sy == SumXY(P, "y")  sxx == SumXY(P, "xx")  sxy == SumXY(P, "xy")
              syy == SumXY(P, "yy")  vx == k * sxx - sx * sx
          IN [ n |-> k, mean |-> << sy, k >>, slope |-> << k * sxy - sx * sy, vx >>,
               offset |-> << sy * sxx - sx * sxy, vx >>, vy |-> k * syy - sy * sy ]
=====================================================================
