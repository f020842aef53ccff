---------------------------- MODULE Screening ----------------------------
(* Which observations of a pixel are used, for every quality word and sets of chosen conditions. *)
EXTENDS Qai
Rules == InputsFrom("RULES")            \* sequence of sequences of condition names
RuleSets == [ i \in 1..Len(Rules) |-> Range(Rules[i].conditions) ]
VARIABLES w, data, done
vars == << w, data, done >>

Init == w \in 0..(NumWords - 1) /\ data \in BOOLEAN /\ done = FALSE
Kept(word, hasdata, rs) == hasdata /\ Usable(word, rs)
Next == /\ ~ done /\ done' = TRUE /\ UNCHANGED << w, data >>
        /\ Emit([ w |-> w, data |-> data, keep |-> [ i \in 1..Len(Rules) |-> IF Kept(w, data, RuleSets[i]) THEN 1 ELSE 0 ] ])

\* only the chosen conditions matter: replacing any other field by any value changes nothing
FieldsOf(rs) == { CondField[c] : c \in rs }
Irrelevant == \A i \in 1..Min2(2, Len(Rules)) : \A f \in FieldSet \ FieldsOf(RuleSets[i]) :
                 Usable(WithField(w, f, 0), RuleSets[i]) = Usable(w, RuleSets[i])
\* choosing more conditions never keeps more observations
Monotone == \A i, j \in 1..Min2(4, Len(Rules)) : (RuleSets[i] \subseteq RuleSets[j] /\ Usable(w, RuleSets[j])) => Usable(w, RuleSets[i])
=====================================================================
