------------------------------- MODULE Params -------------------------------
(* Reading a parameter file. A line is a sequence of characters; what follows "#" is a comment; the first word is the name, the
   words behind "=" are the values. A file is accepted when every parameter of the table has been given with as many valid
   values as it takes; otherwise it is refused.

   job:   table << par >>, given << [ name, words ] >> (lines known to be plain, words as character sequences),
          lines << << char >> >> (lines to be read character by character), paths << << char >> >> (existing paths)
   par:   name << char >>, kind, lo, hi (hundredths), n (number of values, 0: any), values << << char >> >> *)
EXTENDS Emit
CONSTANT Strict   \* FALSE: a reader that takes the leading number of a word (for the vacuity check)
Given == InputsFrom("JOBS")

Digits == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9" >>
IsDigit(c) == \E q \in 1..10 : Digits[q] = c
DigitOf(c) == (CHOOSE q \in 1..10 : Digits[q] = c) - 1
RECURSIVE Number(_)
Number(s) == IF s = << >> THEN 0 ELSE 10 * Number(SubSeq(s, 1, Len(s) - 1)) + DigitOf(s[Len(s)])
AllDigits(s) == \A q \in 1..Len(s) : IsDigit(s[q])

RECURSIVE UpTo(_, _, _)
UpTo(s, C, q) == IF q > Len(s) \/ s[q] \in C THEN q - 1 ELSE UpTo(s, C, q + 1)
NoComment(s) == SubSeq(s, 1, UpTo(s, { "#", "\r", "\n" }, 1))
RECURSIVE Skip(_, _, _)
Skip(s, C, q) == IF q <= Len(s) /\ s[q] \in C THEN Skip(s, C, q + 1) ELSE q
RECURSIVE Words(_, _)
Words(s, q) == LET a == Skip(s, { " " }, q) b == UpTo(s, { " " }, a)
               IN IF a > Len(s) THEN << >> ELSE << SubSeq(s, a, b) >> \o Words(s, b + 1)
\* name and values of a line
NameOf(s) == LET t == NoComment(s) a == Skip(t, { " " }, 1) IN SubSeq(t, a, UpTo(t, { " ", "=" }, a))
ValuesOf(s) == LET t == NoComment(s) a == Skip(t, { " " }, 1) b == UpTo(t, { " ", "=" }, a) IN Words(t, Skip(t, { " ", "=" }, b + 1))

\* numbers in hundredths: optional sign, digits, optionally a point and one or two digits
Sign(w) == w # << >> /\ w[1] = "-"
Body(w) == IF w # << >> /\ w[1] \in { "-", "+" } THEN Tail(w) ELSE w
Point(w) == UpTo(w, { "." }, 1)
Lead(w) == IF Strict THEN w ELSE SubSeq(w, 1, Skip(w, { Digits[q] : q \in 1..10 }, 1) - 1)
IsNumber(w) == LET b == Body(w) p == Point(b) IN
                 /\ b # << >> /\ p >= 1 /\ AllDigits(SubSeq(b, 1, p))
                 /\ (p < Len(b) => Len(b) - p - 1 \in 1..2 /\ AllDigits(SubSeq(b, p + 2, Len(b))))
NumberOf(w) == LET b == Body(w) p == Point(b) f == SubSeq(b, p + 2, Len(b))
                   v == 100 * Number(SubSeq(b, 1, p)) + (IF Len(f) = 1 THEN 10 * Number(f) ELSE Number(f))
               IN IF Sign(w) THEN -v ELSE v
IsDate(w) == /\ Len(w) = 10 /\ w[5] = "-" /\ w[8] = "-" /\ AllDigits(SubSeq(w, 1, 4)) /\ AllDigits(SubSeq(w, 6, 7)) /\ AllDigits(SubSeq(w, 9, 10))
             /\ Number(SubSeq(w, 1, 4)) \in 1900..2099 /\ Number(SubSeq(w, 6, 7)) \in 1..12 /\ Number(SubSeq(w, 9, 10)) \in 1..31
In(w, list) == \E q \in 1..Len(list) : list[q] = w
Null == << "N", "U", "L", "L" >>
IsBase(w) == (\E q \in DOMAIN w : w[q] = ".") /\ ~ \E q \in DOMAIN w : w[q] = "/"

VARIABLES i, job, k, words
vars == << i, job, k, words >>
\* words: values of every parameter of the table, << >> as long as it has not been given
Init == /\ i \in 1..Len(Given) /\ job = Given[i] /\ k = 1 /\ words = [ p \in 1..Len(Given[i].table) |-> << >> ]

Valid(par, w) ==
  CASE par.kind = "int"    -> LET v == Lead(w) IN IsNumber(v) /\ NumberOf(v) % 100 = 0 /\ NumberOf(v) >= par.lo /\ NumberOf(v) <= par.hi
    [] par.kind = "real"   -> LET v == Lead(w) IN IsNumber(v) /\ NumberOf(v) >= par.lo /\ NumberOf(v) <= par.hi
    [] par.kind = "enum"   -> In(w, par.values)
    [] par.kind = "date"   -> IsDate(w)
    [] par.kind = "exists" -> In(w, job.paths)
    [] par.kind = "null or exists" -> w = Null \/ In(w, job.paths)
    [] par.kind = "fresh"  -> ~ In(w, job.paths)
    [] par.kind = "base"   -> IsBase(w)
    [] par.kind = "null or base" -> w = Null \/ IsBase(w)
    [] OTHER               -> TRUE
Fine(p) == LET par == job.table[p] w == words[p] IN
             /\ w # << >> /\ (par.n > 0 => Len(w) = par.n) /\ \A q \in DOMAIN w : Valid(par, w[q])

All == Len(job.given) + Len(job.lines)
NameAt(q) == IF q <= Len(job.given) THEN job.given[q].name ELSE NameOf(job.lines[q - Len(job.given)])
ValuesAt(q) == IF q <= Len(job.given) THEN job.given[q].words ELSE ValuesOf(job.lines[q - Len(job.given)])
Read == /\ k <= All /\ k' = k + 1 /\ UNCHANGED << i, job >>
        /\ words' = LET nm == NameAt(k) v == ValuesAt(k) IN
             [ p \in DOMAIN words |-> IF words[p] = << >> /\ job.table[p].name = nm THEN v ELSE words[p] ]
Decide == /\ k = All + 1 /\ k' = k + 1 /\ UNCHANGED << i, job, words >>
          /\ Emit([ i |-> i, accept |-> \A p \in DOMAIN words : Fine(p), bad |-> { p \in DOMAIN words : ~ Fine(p) }, words |-> [ p \in DOMAIN words |-> words[p] ] ])
Spec == Init /\ [][Read \/ Decide]_vars

\* what has been read stays
Kept == [][\A p \in DOMAIN words : words[p] # << >> => words'[p] = words[p]]_vars
=====================================================================

