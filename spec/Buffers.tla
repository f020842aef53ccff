----------------------------- MODULE Buffers -----------------------------
(* Buffers around clouds, cirrus, shadows and snow. The words of a run without buffers tell what is there; row by row, every pixel gets the set of cloud  *)
(* states, and the values of the shadow and snow flags, that a run with buffers may give it. Half a pixel beyond the buffer is left open.                 *)
EXTENDS Emit

Jobs == InputsFrom("JOBS")
\* job: word: grid of quality words without buffers; wide: << cloud, cirrus, shadow, snow >> buffers (m); res: size of a pixel (m); erase: 1 if clouds are erased
VARIABLES i, row, marks, out
vars == <<i, row, marks, out>>
J == Jobs[i]
Ny == Len(J.word)
Nx == Len(J.word[1])
Off(w) == w % 2 = 1
State(w) == (w \div 2) % 4
Kind(w) == << State(w) = 2, State(w) = 3, (w \div 8) % 2 = 1, (w \div 16) % 2 = 1 >>
Radius(k) == J.wide[k] \div J.res
\* in a row, only marks of the rows around it count (columns and squared distances of rows)
Close(k, r) == LET reach == Radius(k) + 1 IN { << m[2], (r - m[1]) * (r - m[1]) >> : m \in { m \in marks[k] : Abs(r - m[1]) <= reach } }
Flag(k, r, c, close) ==
   IF Radius(k) = 0 THEN { IF << r, c >> \in marks[k] THEN 1 ELSE 0 }
   ELSE LET near == { m[2] + (c - m[1]) * (c - m[1]) : m \in close[k] } IN
        IF near = {} THEN { 0 }
        ELSE LET d2 == MinSet(near) IN
             IF d2 <= Radius(k) * Radius(k) THEN { 1 }
             ELSE IF 4 * d2 <= (2 * Radius(k) + 1) * (2 * Radius(k) + 1) THEN { 0, 1 } ELSE { 0 }
Thin(r, c, close) == { IF v = 1 THEN 3 ELSE 0 : v \in Flag(2, r, c, close) }
Clouds(r, c, close) == IF State(J.word[r][c]) = 2 THEN { 2 }
                ELSE UNION { IF v = 1 THEN { 1 } ELSE Thin(r, c, close) : v \in Flag(1, r, c, close) }
\* reflectance is missing where clouds are opaque, not in their buffers
Empty(r, c) == IF J.erase = 1 /\ State(J.word[r][c]) = 2 THEN 1 ELSE 0
Init == i \in 1 .. Len(Jobs) /\ row = 0 /\ marks = << {}, {}, {}, {} >> /\ out = << >>
Collect == /\ row = 0
           /\ marks' = [k \in 1 .. 4 |-> { m \in (1 .. Ny) \X (1 .. Nx) : ~Off(J.word[m[1]][m[2]]) /\ Kind(J.word[m[1]][m[2]])[k] }]
           /\ row' = 1 /\ UNCHANGED <<i, out>>
Row == /\ row \in 1 .. Ny
       /\ LET close == TLCEval([k \in 1 .. 4 |-> Close(k, row)]) IN
          out' = Append(out, [c \in 1 .. Nx |-> IF Off(J.word[row][c]) THEN << {}, {}, {}, 1 >> ELSE << Clouds(row, c, close), Flag(3, row, c, close), Flag(4, row, c, close), Empty(row, c) >>])
       /\ row' = row + 1 /\ UNCHANGED <<i, marks>>
Tell == row = Ny + 1 /\ Emit([i |-> i, out |-> out]) /\ row' = Ny + 2 /\ UNCHANGED <<i, marks, out>>
Next == Collect \/ Row \/ Tell \/ (row = Ny + 2 /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* nothing that was there disappears
Kept == \A r \in { Len(out) } \ { 0 } : \A c \in 1 .. Nx : LET w == J.word[r][c] IN ~Off(w) =>
   /\ State(w) = 2 => out[r][c][1] = { 2 }
   /\ State(w) = 3 => out[r][c][1] \in { { 1 }, { 3 }, { 1, 3 } }
   /\ Kind(w)[3] => out[r][c][2] = { 1 }
   /\ Kind(w)[4] => out[r][c][3] = { 1 }
   /\ out[r][c][4] = 1 => out[r][c][1] = { 2 }
Ends == <>(row = Ny + 2)
\* expected to be violated
NoGrowth == \A r \in { Len(out) } \ { 0 } : \A c \in 1 .. Nx : out[r][c][1] # { 1 }
==========================================================================
