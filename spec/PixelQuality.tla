---------------------------- MODULE PixelQuality ----------------------------
(* What the quality layer says about one pixel of a Landsat 8 image, for all combinations of unusual digital numbers in up
   to MaxUnusual bands, and about the neighbourhood of pixels without data. *)
EXTENDS Emit
CONSTANT MaxUnusual

Bands == { "1", "2", "3", "4", "5", "6", "7", "9", "10" }
Cirrus == "9"
Thermal == "10"
Product == { "2", "3", "4", "5", "6", "7" }          \* bands of the reflectance product
Reflective == Bands \ { Thermal }
\* zero: no data; low: calibrates to a negative reflectance; over: reflectance above one; full: saturated detector
ClassesOf(b) == CASE b = Thermal -> { "zero", "full" }
                  [] b \in Product -> { "zero", "low", "over", "full" }
                  [] OTHER -> { "zero", "low", "full" }

VARIABLES px, done
vars == << px, done >>
Unusual(f) == { b \in Bands : f[b] # "usual" }
Init == /\ done = FALSE
        /\ \E k \in 0..MaxUnusual : \E B \in { X \in SUBSET Bands : Cardinality(X) = k } :
             \E f \in [ B -> { "zero", "low", "over", "full" } ] :
               /\ \A b \in B : f[b] \in ClassesOf(b)
               /\ px = [ b \in Bands |-> IF b \in B THEN f[b] ELSE "usual" ]

NoData(f) == \/ \E b \in Bands \ { Cirrus } : f[b] = "zero"
             \/ \E b \in Reflective \ { Cirrus } : f[b] = "low"
Saturated(f) == \/ \E b \in Reflective : f[b] = "full"
                \/ \E b \in Product : f[b] = "over"
Next == /\ ~ done /\ done' = TRUE /\ UNCHANGED px
        /\ Emit([ px |-> px, off |-> NoData(px), sat |-> ~ NoData(px) /\ Saturated(px) ])

\* a further band without data never makes a pixel valid; unusual bands never hide each other
MoreIsWorse == \A b \in Bands \ { Cirrus } : NoData([ px EXCEPT ![b] = "zero" ])
Monotone == \A b \in Unusual(px) : LET g == [ px EXCEPT ![b] = "usual" ] IN
               (NoData(g) => NoData(px) ) /\ (Saturated(g) => Saturated(px))
=====================================================================
