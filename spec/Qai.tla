---------------------------- MODULE Qai ----------------------------
(* The quality word of Level 2 products: twelve fields packed into fifteen bits, the screening conditions users can
   choose, and how two words of one pixel are combined. *)
EXTENDS Emit

Names == << "off", "cloud", "shadow", "snow", "water", "aerosol", "subzero", "saturation", "lowsun",
            "illumination", "slope", "vapor" >>
Lo     == [ off |-> 0, cloud |-> 1, shadow |-> 3, snow |-> 4, water |-> 5, aerosol |-> 6, subzero |-> 8,
            saturation |-> 9, lowsun |-> 10, illumination |-> 11, slope |-> 13, vapor |-> 14 ]
Width  == [ off |-> 1, cloud |-> 2, shadow |-> 1, snow |-> 1, water |-> 1, aerosol |-> 2, subzero |-> 1,
            saturation |-> 1, lowsun |-> 1, illumination |-> 2, slope |-> 1, vapor |-> 1 ]
FieldSet == DOMAIN Lo
NumWords == 32768

Field(w, f) == (w \div Pow2(Lo[f])) % Pow2(Width[f])

WithField(w, f, v) == w + (v - Field(w, f)) * Pow2(Lo[f])

Decode(w) == [ f \in FieldSet |-> Field(w, f) ]
RECURSIVE EncodeFrom(_, _)
EncodeFrom(r, i) == IF i > Len(Names) THEN 0 ELSE r[Names[i]] * Pow2(Lo[Names[i]]) + EncodeFrom(r, i + 1)
Encode(r) == EncodeFrom(r, 1)

\* conditions of SCREEN_QAI
Conditions == { "NODATA", "CLOUD_BUFFER", "CLOUD_OPAQUE", "CLOUD_CIRRUS", "CLOUD_SHADOW", "SNOW", "WATER", "AOD_INT",
                "AOD_HIGH", "AOD_FILL", "SUBZERO", "SATURATION", "SUN_LOW", "ILLUMIN_LOW", "ILLUMIN_POOR",
                "ILLUMIN_NONE", "SLOPED", "WVP_NONE" }
CondField == [ NODATA |-> "off", CLOUD_BUFFER |-> "cloud", CLOUD_OPAQUE |-> "cloud", CLOUD_CIRRUS |-> "cloud",
               CLOUD_SHADOW |-> "shadow", SNOW |-> "snow", WATER |-> "water", AOD_INT |-> "aerosol",
               AOD_HIGH |-> "aerosol", AOD_FILL |-> "aerosol", SUBZERO |-> "subzero", SATURATION |-> "saturation",
               SUN_LOW |-> "lowsun", ILLUMIN_LOW |-> "illumination", ILLUMIN_POOR |-> "illumination",
               ILLUMIN_NONE |-> "illumination", SLOPED |-> "slope", WVP_NONE |-> "vapor" ]
CondValue == [ NODATA |-> 1, CLOUD_BUFFER |-> 1, CLOUD_OPAQUE |-> 2, CLOUD_CIRRUS |-> 3, CLOUD_SHADOW |-> 1,
               SNOW |-> 1, WATER |-> 1, AOD_INT |-> 1, AOD_HIGH |-> 2, AOD_FILL |-> 3, SUBZERO |-> 1,
               SATURATION |-> 1, SUN_LOW |-> 1, ILLUMIN_LOW |-> 1, ILLUMIN_POOR |-> 2, ILLUMIN_NONE |-> 3,
               SLOPED |-> 1, WVP_NONE |-> 1 ]

Holds(w, c) == Field(w, CondField[c]) = CondValue[c]
Usable(w, rules) == \A c \in rules : ~ Holds(w, c)

\* combining two quality words of one pixel: nodata gives way, otherwise the most restrictive state of each field
ValidWord(w) == Field(w, "off") = 0
Combine(w1, w2) ==
  CASE ~ ValidWord(w1) -> w2
    [] ~ ValidWord(w2) -> w1
    [] OTHER -> Encode([ f \in FieldSet |-> Max2(Field(w1, f), Field(w2, f)) ])
Cloudy(w) == Field(w, "cloud") > 0 \/ Field(w, "shadow") = 1
=====================================================================
