----------------------------- MODULE Extras -----------------------------
(* Optional Level 2 products. Row by row, every pixel gets its distance to clouds, shadows and snow, its haze index and its water vapour from its        *)
(* quality word and its reflectance. For overviews, a sample of quality words is turned into colours by the first condition that applies.               *)
EXTENDS Emit

Jobs == InputsFrom("JOBS")
\* job: kind "image": rows, cols, word, blue, red: grids; res; vapour (thousandths of g/cm2, -1: no atmospheric correction); kind "overview": word: grid
VARIABLES i, row, marks, out
vars == <<i, row, marks, out>>
J == Jobs[i]
Bit(w, k) == (w \div Pow2(k)) % 2
Off(w) == Bit(w, 0) = 1
Cloud(w) == (w \div 2) % 4
Shadow(w) == Bit(w, 3) = 1
Snow(w) == Bit(w, 4) = 1
SubZero(w) == Bit(w, 8) = 1
Saturated(w) == Bit(w, 9) = 1
Mark(w) == Cloud(w) > 0 \/ Shadow(w) \/ Snow(w)
None == -9999
Most == 32767
Rows == Len(J.word)
Cols == Len(J.word[1])
Word(r, c) == J.word[r][c]
Dist2(r, c) == MinSet({ (r - m[1]) * (r - m[1]) + (c - m[2]) * (c - m[2]) : m \in marks })
Root(v) == CHOOSE k \in 0 .. v : k * k <= v /\ (k + 1) * (k + 1) > v
Distance(r, c) == IF Off(Word(r, c)) THEN None
                  ELSE Min2(Most, J.res * (IF marks = {} THEN Rows + Cols ELSE Root(Dist2(r, c))))
\* twice the haze index: blue - red / 2 - 0.08
Haze2(r, c) == IF Off(Word(r, c)) THEN 2 * None ELSE 2 * J.blue[r][c] - J.red[r][c] - 1600
Vapour(r, c) == IF Off(Word(r, c)) \/ J.vapour < 0 THEN None ELSE J.vapour
Colour(w) == IF Off(w) THEN << 0, 0, 0 >>
             ELSE IF Cloud(w) = 3 THEN << 255, 0, 0 >>
             ELSE IF Cloud(w) > 0 THEN << 255, 0, 255 >>
             ELSE IF Shadow(w) THEN << 0, 255, 255 >>
             ELSE IF Snow(w) THEN << 255, 255, 0 >>
             ELSE IF Saturated(w) THEN << 255, 127, 39 >>
             ELSE IF SubZero(w) THEN << 34, 177, 76 >>
             ELSE << >>                       \* the reflectance itself
Init == i \in 1 .. Len(Jobs) /\ row = 0 /\ marks = {} /\ out = << >>
Collect == /\ row = 0
           /\ marks' = (IF J.kind = "image" THEN { m \in (1 .. Rows) \X (1 .. Cols) : Mark(Word(m[1], m[2])) } ELSE {})
           /\ row' = 1 /\ UNCHANGED <<i, out>>
Row == /\ row \in 1 .. Rows
       /\ out' = Append(out, [c \in 1 .. Cols |-> IF J.kind = "image" THEN << Distance(row, c), Haze2(row, c), Vapour(row, c) >> ELSE Colour(Word(row, c))])
       /\ row' = row + 1 /\ UNCHANGED <<i, marks>>
Tell == row = Rows + 1 /\ Emit([i |-> i, out |-> out]) /\ row' = Rows + 2 /\ UNCHANGED <<i, marks, out>>
Next == Collect \/ Row \/ Tell \/ (row = Rows + 2 /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* marked pixels have no distance, and neighbours differ by at most one pixel (and the loss of rounding)
Lipschitz == (J.kind = "image" /\ marks # {}) => \A r \in 1 .. Len(out) : \A c \in 1 .. Cols :
   /\ (<<r, c>> \in marks /\ out[r][c][1] # None) => out[r][c][1] = 0
   /\ (c < Cols /\ out[r][c][1] # None /\ out[r][c + 1][1] # None) =>
        (out[r][c][1] - out[r][c + 1][1] <= 2 * J.res /\ out[r][c + 1][1] - out[r][c][1] <= 2 * J.res)
Ends == <>(row = Rows + 2)
\* expected to be violated
Clear == marks = {}
=========================================================================
