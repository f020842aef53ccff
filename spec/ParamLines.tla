----------------------------- MODULE ParamLines -----------------------------
(* All ways to write one line of a parameter file from a few pieces, with what the reader has to make of it: "set" to the number,
   "unset", "wrong" (a value that is no number), or "open" where the documentation does not say (no equal sign between name and
   value, several values, an equal sign elsewhere). *)
EXTENDS Emit
CONSTANT MaxLen
Pieces == { "NAME", "7", " ", "=", "#", "X" }
VARIABLE line
Init == line = << >>
Add == Len(line) < MaxLen /\ \E p \in Pieces : line' = Append(line, p)
Spec == Init /\ [][Add]_line

RECURSIVE To(_, _, _)
To(s, C, q) == IF q > Len(s) \/ s[q] \in C THEN q - 1 ELSE To(s, C, q + 1)
Code == SubSeq(line, 1, To(line, { "#" }, 1))
Blank(s) == \A q \in DOMAIN s : s[q] = " "
RECURSIVE Over(_, _)
Over(s, q) == IF q <= Len(s) /\ s[q] = " " THEN Over(s, q + 1) ELSE q
Start == Over(Code, 1)
Stop == To(Code, { " ", "=" }, Start)
Name == SubSeq(Code, Start, Stop)
Rest == SubSeq(Code, Stop + 1, Len(Code))
Equals == { q \in DOMAIN Rest : Rest[q] = "=" }
Value == LET e == CHOOSE q \in Equals : TRUE a == Over(Rest, e + 1) IN SubSeq(Rest, a, To(Rest, { " " }, a))
After == LET e == CHOOSE q \in Equals : TRUE a == Over(Rest, e + 1) b == To(Rest, { " " }, a) IN SubSeq(Rest, b + 1, Len(Rest))
Before == LET e == CHOOSE q \in Equals : TRUE IN SubSeq(Rest, 1, e - 1)
What == IF Blank(Code) THEN "unset"
        ELSE IF Name # << "NAME" >> THEN IF "=" \in { Code[q] : q \in DOMAIN Code } /\ Name = << >> THEN "open" ELSE "unset"
        ELSE IF Cardinality(Equals) = 0 THEN IF Blank(Rest) THEN "unset" ELSE "open"
        ELSE IF Cardinality(Equals) > 1 \/ ~ Blank(Before) \/ ~ Blank(After) THEN "open"
        ELSE IF Value = << >> THEN "unset"
        ELSE IF \A q \in DOMAIN Value : Value[q] = "7" THEN "set" ELSE "wrong"
Tell == Emit([ line |-> line, what |-> What, n |-> IF What = "set" THEN Len(Value) ELSE 0 ])
\* a comment never counts
NoComment == What = "set" => \A q \in DOMAIN Value : Value[q] # "#"
=====================================================================
