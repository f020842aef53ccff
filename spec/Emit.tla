---------------------------- MODULE Emit ----------------------------
(* Shared helpers: handing expected states over to the driver as JSON, and integer arithmetic as C does it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

\* one line per expected state; the driver collects the lines that start with @@
Emit(rec) == PrintT("@@" \o ToJson(rec))

\* inputs the driver chose (seeded); the file name comes through the environment
InputsFrom(var) == ndJsonDeserialize(IOEnv[var])

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxSet(S) == CHOOSE x \in S : \A y \in S : x >= y

\* floor division, ceiling division, remainder for positive divisors
FloorDiv(a, b) == a \div b
CeilDiv(a, b) == -((-a) \div b)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

\* ascending sequence of a finite set of integers
SortSet(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

\* rounding to the nearest integer, half away from zero
RoundDiv(a, b) == IF a >= 0 THEN (2*a + b) \div (2*b) ELSE -((2*(-a) + b) \div (2*b))
=====================================================================
