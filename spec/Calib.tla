----------------------------- MODULE Calib -----------------------------
(* Images of the supported satellites on their way into the data cube: is the image accepted, which band file belongs to which    *)
(* wavelength, what the digital numbers mean, and which pixels are dropped. An image is read band by band.                        *)
EXTENDS Emit

Jobs == InputsFrom("JOBS")
\* job: sat, kind (processing), category, tier (parameter), missing (band file that is not there, or "none"), quant, noise (parameter)
\*      add, mul: per input band; pixels: sequence of digital numbers per input band; spike: heights of impulse noise per input band, per pixel (zeros: none)

Thematic == << "1", "2", "3", "4", "5", "7", "6" >>
Imager   == << "1", "2", "3", "4", "5", "9", "6", "7", "10" >>
Multi    == << "01", "02", "03", "04", "05", "06", "07", "08", "8A", "09", "10", "11", "12" >>
Meaning(s) == CASE s \in {"LND04", "LND05", "LND07"} -> << "BLUE", "GREEN", "RED", "NIR", "SWIR1", "SWIR2", "TEMP" >>
              [] s \in {"LND08", "LND09"} -> << "ULTRABLUE", "BLUE", "GREEN", "RED", "NIR", "CIRRUS", "SWIR1", "SWIR2", "TEMP" >>
              [] s \in {"SEN2A", "SEN2B", "SEN2C", "SEN2D"} -> << "ULTRABLUE", "BLUE", "GREEN", "RED", "REDEDGE1", "REDEDGE2", "REDEDGE3", "BROADNIR", "NIR", "VAPOR", "CIRRUS", "SWIR1", "SWIR2" >>
              [] OTHER -> << >>
Files(s) == IF s \in {"LND04", "LND05", "LND07"} THEN Thematic ELSE IF s \in {"LND08", "LND09"} THEN Imager ELSE Multi
Sentinel(s) == Len(Meaning(s)) = 13
Hidden == {"ULTRABLUE", "CIRRUS", "VAPOR", "TEMP"}     \* bands that help processing, but are no part of the product
EightBit(s) == Len(Meaning(s)) = 7
Full(s) == IF EightBit(s) THEN 255 ELSE 65535
TierOf(j) == IF Sentinel(j.sat) THEN IF j.kind = "1C" THEN 1 ELSE 9
             ELSE IF j.category = "RT" THEN 3 ELSE IF j.category = "T2" \/ j.kind # "L1TP" THEN 2 ELSE 1
Accepted(j) == Meaning(j.sat) # <<>> /\ j.missing = "none" /\ TierOf(j) <= j.tier

\* reflectance: Sentinel-2 as integers of 1/10000, Landsat in tenths of this, before the position of the sun is considered
Refl(j, b, dn) == IF Sentinel(j.sat) THEN ((dn + j.add[b]) * 10000) \div j.quant ELSE 10 * j.add[b] + j.mul[b] * dn

VARIABLES i, band, lost, bright, out
vars == <<i, band, lost, bright, out>>
J == Jobs[i]
N == Len(J.pixels)
Init == i \in 1 .. Len(Jobs) /\ band = 0 /\ lost = {} /\ bright = {} /\ out = <<>>

\* impulse noise of one pixel: of the three visible bands, the most variable one sticks out
Noisy(j, k) ==
  LET h == [ d \in {"BLUE", "GREEN", "RED"} |-> LET b == CHOOSE b \in 1 .. Len(Meaning(j.sat)) : Meaning(j.sat)[b] = d IN j.spike[k][b] ]
      top == MaxSet({ h[d] : d \in DOMAIN h })
      one == CHOOSE d \in DOMAIN h : h[d] = top
      second == MaxSet({ h[d] : d \in DOMAIN h \ {one} })
  IN top - second > 45
Accept == /\ band = 0
          /\ IF Accepted(J)
             THEN band' = 1 /\ lost' = IF J.noise /\ EightBit(J.sat) THEN { k \in 1 .. N : Noisy(J, k) } ELSE {}
             ELSE band' = 99 /\ lost' = {}
          /\ Emit([i |-> i, band |-> 0, accepted |-> Accepted(J)])
          /\ UNCHANGED <<i, bright, out>>
ReadBand ==
  /\ band \in 1 .. Len(Meaning(J.sat))
  /\ LET m == Meaning(J.sat)[band]
         dn == [k \in 1 .. N |-> J.pixels[k][band]]
         v == [k \in 1 .. N |-> IF m = "TEMP" THEN 1 ELSE Refl(J, band, dn[k])]
     IN /\ lost' = lost \union { k \in 1 .. N : m # "CIRRUS" /\ (dn[k] = 0 \/ (~Sentinel(J.sat) /\ v[k] <= 0)) }
        /\ bright' = bright \union { k \in 1 .. N : m # "TEMP" /\ dn[k] >= Full(J.sat) }
        /\ out' = IF m \in Hidden THEN out ELSE Append(out, [name |-> m, file |-> Files(J.sat)[band], values |-> v])
  /\ band' = band + 1 /\ UNCHANGED i
Write == /\ band = Len(Meaning(J.sat)) + 1
         /\ Emit([i |-> i, band |-> band, lost |-> lost, bright |-> bright, out |-> out])
         /\ band' = 99 /\ UNCHANGED <<i, lost, bright, out>>
Next == Accept \/ ReadBand \/ Write \/ (band = 99 /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Accept) /\ WF_vars(ReadBand) /\ WF_vars(Write)

\* the product of every satellite has the six bands that all of them share, in the order of wavelengths
Shared == << "BLUE", "GREEN", "RED", "NIR", "SWIR1", "SWIR2" >>
Complete == (band = 99 /\ Accepted(J)) => SelectSeq([k \in 1 .. Len(out) |-> out[k].name], LAMBDA n : \E q \in 1 .. 6 : Shared[q] = n) = Shared
SameBands == (band = 99 /\ Accepted(J)) => Len(out) = IF Sentinel(J.sat) THEN 10 ELSE 6
Refused == ~Accepted(J) => out = <<>>
Grows == [][lost \subseteq lost' /\ bright \subseteq bright']_vars
Ends == <>(band = 99)
\* expected to be violated: band files are numbered in the order of the product
Numbered == \A k \in 1 .. Len(out) : out[k].file = Files(J.sat)[k]
=========================================================================
