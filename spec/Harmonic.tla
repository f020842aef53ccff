------------------------------ MODULE Harmonic ------------------------------
(* Seasonal (harmonic) interpolation of one pixel.  The curve is fitted to the usable observations inside the fit range and is given
   wherever there are at least as many of them as the curve has coefficients.  Observations that follow a curve of that form
   are reproduced by it, on every day of the interpolated series.  The near-real-time product lists every acquisition after the fit
   range with the difference between what was observed and what the curve says.

   job: days << >> of the acquisitions, fit << first, last >> day, steps << >> days of the series, modes, trend,
        curve << << day, value >> ... >> as a function from days, pixels << [ state << "ok"|"flagged"|"empty" >>, value << >> ] >> *)
EXTENDS Emit, Integers, Sequences, FiniteSets

Jobs == InputsFrom("JOBS")
VARIABLES job, px, fitted, out
vars == << job, px, fitted, out >>
J == Jobs[job]
X == J.pixels[px]
Days == 1..Len(J.days)
Coefficients == 1 + (IF J.trend THEN 1 ELSE 0) + 2 * J.modes
Usable == { t \in Days : X.state[t] = "ok" }
Used == { t \in Usable : J.days[t] >= J.fit[1] /\ J.days[t] <= J.fit[2] }
Forecast == SelectSeq([ t \in Days |-> t ], LAMBDA t : J.days[t] > J.fit[2])
Nothing == << 0, 0 >>
Value(v) == << 1, v >>
\* so few observations leave the curve open; then only its presence is judged
Firm == Cardinality(Used) >= Coefficients + J.spare

Init == job \in 1..Len(Jobs) /\ px \in 1..Len(Jobs[job].pixels) /\ fitted = FALSE /\ out = << >>
Fit == /\ ~ fitted /\ out = << >>
       /\ IF Cardinality(Used) >= Coefficients THEN fitted' = TRUE /\ UNCHANGED out
          ELSE /\ out' = [ series |-> [ i \in 1..Len(J.steps) |-> Nothing ], nrt |-> [ i \in 1..Len(Forecast) |-> Nothing ], firm |-> TRUE ]
               /\ Emit([ job |-> job, px |-> px, out |-> out' ]) /\ UNCHANGED fitted
       /\ UNCHANGED << job, px >>
Evaluate == /\ fitted /\ out = << >>
            /\ out' = [ series |-> [ i \in 1..Len(J.steps) |-> Value(J.curve[i]) ],
                        nrt |-> [ i \in 1..Len(Forecast) |-> LET t == Forecast[i] IN IF t \in Usable THEN Value(X.value[t] - J.ahead[i]) ELSE Nothing ], firm |-> Firm ]
            /\ Emit([ job |-> job, px |-> px, out |-> out' ])
            /\ UNCHANGED << job, px, fitted >>
Next == Fit \/ Evaluate
Spec == Init /\ [][Next]_vars
\* what happens after the fit range never decides about the curve
OnlyFitRange == fitted => Cardinality(Used) >= Coefficients
AlwaysFitted == out # << >> => fitted                                        \* violated: some pixels have too few observations
=============================================================================
