----------------------------- MODULE Modis -----------------------------
(* Importing daily MODIS reflectance. The state word of a pixel is read group by group, and every group that reports something   *)
(* sets a field of the quality word. Several groups may report clouds; the quality word has one of the states reported then.     *)
(* The reflectances of a pixel decide whether it has data, and whether it is flagged as below zero or saturated.                 *)
EXTENDS Emit

\* groups of the state word: lowest bit, number of bits
Groups == << [name |-> "state", lo |-> 0, n |-> 2], [name |-> "shadow", lo |-> 2, n |-> 1], [name |-> "surface", lo |-> 3, n |-> 3],
             [name |-> "aerosol", lo |-> 6, n |-> 2], [name |-> "cirrus", lo |-> 8, n |-> 2], [name |-> "mask", lo |-> 10, n |-> 1],
             [name |-> "fire", lo |-> 11, n |-> 1], [name |-> "ice", lo |-> 12, n |-> 1], [name |-> "near", lo |-> 13, n |-> 1],
             [name |-> "other", lo |-> 14, n |-> 1], [name |-> "snow", lo |-> 15, n |-> 1] >>
Bits(w, g) == (w \div Pow2(g.lo)) % Pow2(g.n)

\* states of clouds in the quality word: 1 buffer, 2 opaque, 3 cirrus
Report(q, g, v) ==
  CASE g.name = "state" /\ v > 0 -> [q EXCEPT !.cloud = @ \cup {2}]
    [] g.name = "mask" /\ v > 0 -> [q EXCEPT !.cloud = @ \cup {2}]
    [] g.name = "cirrus" /\ v > 0 -> [q EXCEPT !.cloud = @ \cup {3}]
    [] g.name = "near" /\ v > 0 -> [q EXCEPT !.cloud = @ \cup {1}]
    [] g.name = "shadow" -> [q EXCEPT !.shadow = v]
    [] g.name = "surface" -> [q EXCEPT !.water = IF v = 1 THEN 0 ELSE 1]
    [] g.name = "aerosol" -> [q EXCEPT !.aerosol = CASE v = 0 -> 3 [] v = 3 -> 2 [] OTHER -> 0]
    [] g.name \in {"ice", "snow"} /\ v > 0 -> [q EXCEPT !.snow = 1]
    [] OTHER -> q

CONSTANTS Words, Values, Bands, Unused       \* state words; classes of reflectance; bands; 6th band not usable?
ASSUME Values \subseteq {"fill", "low", "neg", "ok", "high"}

VARIABLES kind, w, k, q, refl
vars == <<kind, w, k, q, refl>>

Clear == [cloud |-> {}, shadow |-> 0, water |-> 0, aerosol |-> 0, snow |-> 0]

Init == \/ kind = "word" /\ w \in Words /\ k = 0 /\ q = Clear /\ refl = <<>>
        \/ kind = "refl" /\ w = 0 /\ k = 0 /\ q = Clear /\ refl \in [1 .. Bands -> Values]

Judged == { b \in 1 .. Bands : ~(Unused /\ b = 6) }
Read == /\ kind = "word" /\ k < Len(Groups)
        /\ k' = k + 1 /\ q' = Report(q, Groups[k + 1], Bits(w, Groups[k + 1]))
        /\ IF k' = Len(Groups) THEN Emit([w |-> w, q |-> [q' EXCEPT !.cloud = IF q'.cloud = {} THEN {0} ELSE q'.cloud]]) ELSE TRUE
        /\ UNCHANGED <<kind, w, refl>>
\* without blue reflectance a pixel has no data
Judge == /\ kind = "refl" /\ k = 0
         /\ k' = 1
         /\ LET below == \E b \in Judged : refl[b] \in {"fill", "low", "neg"}
                above == \E b \in Judged : refl[b] = "high"
            IN Emit([refl |-> refl, off |-> refl[1] \in {"fill", "low"}, below |-> below, above |-> above])
         /\ UNCHANGED <<kind, w, q, refl>>
Next == Read \/ Judge \/ (k >= (IF kind = "word" THEN Len(Groups) ELSE 1) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Done == kind = "word" /\ k = Len(Groups)
\* the groups cover the word, without overlap
Cover == { b \in 0 .. 15 : Cardinality({ g \in 1 .. Len(Groups) : b >= Groups[g].lo /\ b < Groups[g].lo + Groups[g].n }) = 1 } = 0 .. 15
ASSUME Cover
\* nothing is reported for clear land with low or average aerosol, and only for such pixels
Quiet == Done => ((q = Clear) <=> /\ w % 8 = 0 /\ (w \div 8) % 8 = 1 /\ (w \div 64) % 4 \in {1, 2}
                                  /\ (w \div 256) % 8 = 0 /\ (w \div 4096) % 4 = 0 /\ w < 32768)
\* expected to be violated: one report of clouds at most
OneCloud == Cardinality(q.cloud) <= 1
=========================================================================
