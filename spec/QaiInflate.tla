---------------------------- MODULE QaiInflate ----------------------------
(* force-qai-inflate: every quality word is expanded into one band per field. *)
EXTENDS Qai
VARIABLES w, band, out
vars == << w, band, out >>

Init == w \in 0..(NumWords - 1) /\ band = 0 /\ out = <<>>
Next == /\ band < Len(Names)
        /\ band' = band + 1
        /\ out' = Append(out, Field(w, Names[band + 1]))
        /\ w' = w
        /\ (band' = Len(Names) => Emit([w |-> w, out |-> out']))

\* the bands determine the word: no information is lost and no bit counted twice
RoundTrip == band = Len(Names) => Encode([ f \in FieldSet |-> out[CHOOSE i \in 1..Len(Names) : Names[i] = f] ]) = w
InRange == \A i \in 1..Len(out) : out[i] \in 0..(Pow2(Width[Names[i]]) - 1)
=====================================================================
