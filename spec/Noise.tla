------------------------------- MODULE Noise -------------------------------
(* Noise filter of the series of one pixel.  The residual of an observation is its distance to the straight line between the usable
   observation before and after it; the noise is the root mean square of all residuals.  As long as the largest residual exceeds
   a multiple of the noise, the observation that causes it is removed.  Afterwards observations the quality screening had discarded are
   taken back, one after the other, if their residual stays below another multiple of the noise.

   pixel: day << >> ascending, value << >>, state << "ok" | "flagged" | "empty" >>, above << num, den >>, below << num, den >> *)
EXTENDS Emit, Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

Pixels == InputsFrom("PIXELS")
Scale == 10
VARIABLES px, usable, removed, restored, phase, at, noise, unclear
vars == << px, usable, removed, restored, phase, at, noise, unclear >>

P == Pixels[px]
N == Len(P.day)
Before(S, t) == { u \in S : u < t }
After(S, t) == { u \in S : u > t }
Inner(S) == { t \in S : Before(S, t) # {} /\ After(S, t) # {} }
L(S, t) == Max(Before(S, t))
R(S, t) == Min(After(S, t))
Round(a, b) == IF a >= 0 THEN (2 * a + b) \div (2 * b) ELSE -((2 * (-a) + b) \div (2 * b))
\* scaled distance to the line; two neighbours of the same day count half each
Residual(S, t) ==
  LET l == L(S, t) r == R(S, t) w == P.day[r] - P.day[l]
  IN IF w = 0 THEN Abs(Round(Scale * (2 * P.value[t] - P.value[l] - P.value[r]), 2))
     ELSE Abs(Round(Scale * ((P.value[t] - P.value[l]) * w - (P.value[r] - P.value[l]) * (P.day[t] - P.day[l])), w))
\* at the ends of the series the outermost observation may be the one to blame
Suspect(S, t) ==
  LET l == L(S, t) r == R(S, t) m == P.value[t]
      first == Before(S, l) = {} last == After(S, r) = {}
  IN IF first /\ Abs(P.value[l] - P.value[r]) > Abs(m - P.value[r]) THEN l
     ELSE IF last /\ Abs(P.value[l] - P.value[r]) > Abs(m - P.value[l]) THEN r
     ELSE t
SumOfSquares(S) == FoldSet(LAMBDA t, acc : acc + Residual(S, t) * Residual(S, t), 0, Inner(S))
Unknown == << 0, 0 >>                                                       \* no noise could be determined so far
\* is a / noise above the threshold (num / den)?  noise = << sum of squares, count >>
Exceeds(a, nz, th) == a * a * nz[2] * th[2] * th[2] > th[1] * th[1] * nz[1]
Close(a, nz, th) == \/ Exceeds(a + 1, nz, th) /\ ~ Exceeds(a, nz, th)
                    \/ Exceeds(a, nz, th) /\ a > 0 /\ ~ Exceeds(a - 1, nz, th)

Init == /\ px \in 1..Len(Pixels)
        /\ usable = { t \in 1..Len(Pixels[px].day) : Pixels[px].state[t] = "ok" }
        /\ removed = {} /\ restored = {} /\ phase = "remove" /\ at = 2 /\ noise = Unknown /\ unclear = FALSE

Filter ==
  /\ phase = "remove"
  /\ LET I == Inner(usable) IN
     IF Cardinality(I) < 2 THEN phase' = "restore" /\ UNCHANGED << usable, removed, noise, unclear >>
     ELSE LET top == Max({ Residual(usable, t) : t \in I })
              worst == Min({ t \in I : Residual(usable, t) = top })
              tied == \E t \in I : Abs(Residual(usable, t) - top) <= 1 /\ Suspect(usable, t) # Suspect(usable, worst)
              nz == << SumOfSquares(usable), Cardinality(I) >>
              out == top > 0 /\ Exceeds(top, nz, P.above)
          IN /\ noise' = nz
             /\ unclear' = (unclear \/ (top > 0 /\ Close(top, nz, P.above)) \/ (out /\ tied))
             /\ IF out THEN /\ usable' = usable \ { Suspect(usable, worst) } /\ removed' = removed \cup { Suspect(usable, worst) }
                            /\ phase' = IF Cardinality(I) > 2 THEN "remove" ELSE "restore"
                ELSE UNCHANGED << usable, removed >> /\ phase' = "restore"
  /\ UNCHANGED << px, restored, at >>

Restore ==
  /\ phase = "restore"
  /\ IF at >= N \/ noise = Unknown
     THEN /\ phase' = "done" /\ UNCHANGED << usable, restored, at, unclear >>
          /\ Emit([ px |-> px, usable |-> usable, removed |-> removed, restored |-> restored, unclear |-> unclear ])
     ELSE LET cand == P.state[at] = "flagged" /\ Before(usable, at) # {} /\ After(usable, at) # {}
              r == IF cand THEN Residual(usable, at) ELSE 0
              good == cand /\ noise[1] > 0 /\ ~ Exceeds(r, noise, P.below) /\ P.below[1] > 0
          IN /\ usable' = IF good THEN usable \cup { at } ELSE usable
             /\ restored' = IF good THEN restored \cup { at } ELSE restored
             /\ unclear' = (unclear \/ (cand /\ noise[1] > 0 /\ Close(r, noise, P.below)))
             /\ at' = at + 1 /\ UNCHANGED phase
  /\ UNCHANGED << px, removed, noise >>

Next == Filter \/ Restore
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Sound == /\ \A t \in removed : P.state[t] = "ok"
         /\ \A t \in restored : P.state[t] = "flagged"
         /\ usable = ({ t \in 1..N : P.state[t] = "ok" } \ removed) \cup restored
KeepsEnough == Cardinality({ t \in 1..N : P.state[t] = "ok" }) >= 3 => Cardinality(usable) >= 3
Ends == <>(phase = "done")
NothingRemoved == removed = {}                    \* violated: outliers exist
NothingRestored == restored = {}                  \* violated: plausible observations come back
=============================================================================
