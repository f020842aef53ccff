------------------------------- MODULE Indices -------------------------------
(* Spectral indices. An index names the bands that it needs; with several sensors only the bands that all of them have can
   be used, and each observation is read in the band order of its own sensor. Values are exact fractions: << num, den >>
   stands for num / den in units of the stored integer (reflectance * 10000; chlorophyll index * 1000). *)
EXTENDS Integers, Sequences, FiniteSets, Sensors, Emit

Needs == [ NDVI |-> << "NIR", "RED" >>, EVI |-> << "NIR", "RED", "BLUE" >>, NBR |-> << "NIR", "SWIR2" >>, NDTI |-> << "SWIR1", "SWIR2" >>,
           ARVI |-> << "NIR", "RED", "BLUE" >>, SAVI |-> << "NIR", "RED" >>, SARVI |-> << "NIR", "RED", "BLUE" >>,
           NDBI |-> << "SWIR1", "NIR" >>, NDWI |-> << "GREEN", "NIR" >>, MNDWI |-> << "GREEN", "SWIR1" >>, NDMI |-> << "NIR", "SWIR1" >>,
           NDSI |-> << "GREEN", "SWIR1" >>, kNDVI |-> << "NIR", "RED" >>, NDRE1 |-> << "REDEDGE2", "REDEDGE1" >>, NDRE2 |-> << "REDEDGE3", "REDEDGE1" >>,
           CIre |-> << "REDEDGE3", "REDEDGE1" >>, NDVIre1 |-> << "BROADNIR", "REDEDGE1" >>, NDVIre2 |-> << "BROADNIR", "REDEDGE2" >>,
           NDVIre3 |-> << "BROADNIR", "REDEDGE3" >>, NDVIre1n |-> << "NIR", "REDEDGE1" >>, NDVIre2n |-> << "NIR", "REDEDGE2" >>,
           NDVIre3n |-> << "NIR", "REDEDGE3" >>, MSRre |-> << "BROADNIR", "REDEDGE1" >>, MSRren |-> << "NIR", "REDEDGE1" >>,
           CCI |-> << "GREEN", "RED" >>, EVI2 |-> << "NIR", "RED" >>, ContRemSWIR |-> << "SWIR1", "NIR", "SWIR2" >> ]
Cap == << "BLUE", "GREEN", "RED", "NIR", "SWIR1", "SWIR2" >>
TasseledCap == [ B |-> << 2043, 4158, 5524, 5741, 3124, 2303 >>, G |-> << -1603, -2819, -4934, 7940, -2, -1446 >>, W |-> << 315, 2021, 3102, 1594, -6806, -6109 >> ]
CapNames == { "TC-BRIGHT", "TC-GREEN", "TC-WET", "TC-DI" }
Differences == { "NDVI", "NBR", "NDTI", "NDBI", "NDWI", "MNDWI", "NDMI", "NDSI", "NDRE1", "NDRE2", "NDVIre1", "NDVIre2", "NDVIre3", "NDVIre1n", "NDVIre2n", "NDVIre3n", "CCI" }

Elems(s) == { s[i] : i \in 1..Len(s) }
Common(sensors) == { b \in Elems(SensorBands[sensors[1]]) : \A i \in 1..Len(sensors) : b \in Elems(SensorBands[sensors[i]]) }
Needed(i) == IF i \in CapNames \cup { "SMA" } THEN Cap ELSE IF i \in DOMAIN Needs THEN Needs[i] ELSE << i >>      \* otherwise a band
Provided(i, sensors) == Elems(Needed(i)) \subseteq Common(sensors)

BandOf(o, b) == o.spec[CHOOSE n \in 1..Len(SensorBands[o.sensor]) : SensorBands[o.sensor][n] = b]
Dot(o, c) == LET s(n) == c[n] * BandOf(o, Cap[n]) IN s(1) + s(2) + s(3) + s(4) + s(5) + s(6)
Undefined == << "none" >>
Frac(n, d) == IF d = 0 THEN Undefined ELSE IF d < 0 THEN << "frac", -n, -d >> ELSE << "frac", n, d >>
Fits(f) == IF f = Undefined THEN f ELSE IF f[2] \div f[3] > 32766 \/ f[2] \div f[3] < -32767 THEN Undefined ELSE f
Value(i, o) ==
  LET B(n) == BandOf(o, Needed(i)[n])
      rb == 2 * B(2) - B(3)
  IN CASE i \in Differences -> LET s == B(1) + B(2) d == B(1) - B(2)
                               IN IF s = 0 \/ Abs(d) > Abs(s) THEN Undefined ELSE Frac(10000 * d, s)
       [] i = "EVI" -> Fits(Frac(25000 * 2 * (B(1) - B(2)), 2 * B(1) + 12 * B(2) - 15 * B(3) + 20000))
       [] i = "EVI2" -> Fits(Frac(24000 * (B(1) - B(2)), B(1) + B(2) + 10000))
       [] i = "ARVI" -> Fits(Frac(10000 * (B(1) - rb), B(1) + rb))
       [] i = "SAVI" -> Fits(Frac(15000 * (B(1) - B(2)), B(1) + B(2) + 5000))
       [] i = "SARVI" -> Fits(Frac(15000 * (B(1) - rb), B(1) + rb + 5000))
       [] i = "CIre" -> Fits(Frac(1000 * (B(1) - B(2)), B(2)))
       [] i = "ContRemSWIR" -> Frac(1322 * B(1) - 576 * B(2) - 746 * B(3), 1322)
       [] i = "TC-BRIGHT" -> Frac(Dot(o, TasseledCap.B), 10000)
       [] i = "TC-GREEN" -> Frac(Dot(o, TasseledCap.G), 10000)
       [] i = "TC-WET" -> Frac(Dot(o, TasseledCap.W), 10000)
       [] i = "TC-DI" -> Frac(Dot(o, TasseledCap.B) - Dot(o, TasseledCap.G) - Dot(o, TasseledCap.W), 10000)
       [] i = "kNDVI" -> IF B(1) <= 0 \/ B(2) <= 0 THEN Undefined ELSE << "kernel", B(1), B(2) >>
       [] i \in { "MSRre", "MSRren" } -> LET d == IF B(2) < 0 THEN -1 ELSE 1        \* the ratio is above -1
                                         IN IF B(2) = 0 \/ d * (B(1) + B(2)) <= 0 THEN Undefined ELSE << "root", B(1), B(2) >>
       [] OTHER -> Frac(B(1), 1)
\* unmixing: a spectrum that is an exact mixture (fractions in percent) of the endmembers gives the fraction of endmember e;
\* with shade normalisation the last endmember is shade and the others share the rest
Fraction(fr, e, shade) == IF ~ shade THEN Frac(100 * fr[e], 1)
                          ELSE IF e = Len(fr) THEN Frac(0, 1) ELSE Frac(10000 * fr[e], 100 - fr[Len(fr)])
Of(i, o) == IF ~ o.ok THEN Undefined ELSE IF i = "SMA" THEN Fraction(o.mix, o.e, o.shade) ELSE Value(i, o)

Jobs == InputsFrom("JOBS")       \* [ id, sensors, indices, obs: sequence of [ sensor, ok, spec ] (unmixing: [ ok, mix, e, shade ]) ]
VARIABLES k, said
vars == << k, said >>
Init == k = 0 /\ said = {}
Next == /\ k < Len(Jobs) /\ k' = k + 1
        /\ LET j == Jobs[k'] ix == j.indices
               out == [ n \in 1..Len(ix) |-> [ index |-> ix[n], provided |-> Provided(ix[n], j.sensors),
                          vals |-> IF Provided(ix[n], j.sensors) THEN [ m \in 1..Len(j.obs) |-> Of(ix[n], j.obs[m]) ] ELSE << >> ] ]
           IN Emit([ id |-> j.id, out |-> out ]) /\ said' = { << out[n].index, out[n].provided >> : n \in 1..Len(ix) }
Spec == Init /\ [][Next]_vars
\* red edge indices belong to Sentinel-2 alone
RedEdge == k > 0 => \A s \in said : (s[2] /\ \E b \in Elems(Needed(s[1])) : b \in { "REDEDGE1", "REDEDGE2", "REDEDGE3", "BROADNIR" })
                       => \A i \in 1..Len(Jobs[k].sensors) : SensorBands[Jobs[k].sensors[i]] = Sentinel2
=====================================================================
