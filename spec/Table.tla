------------------------------ MODULE Table ------------------------------
(* Reading a text table line by line.  A line is a number of tokens; the first line may hold column names, the first
   token of a line may be the name of the row.  The reader consumes lines and either keeps a regular table or refuses.
   Values are chosen by the driver: cell (i, j) of the table is token Tok(i, j). *)
EXTENDS Emit
CONSTANTS MaxLines, MaxTok
VARIABLES rn, cn,           \* row names / column names announced
          lines,            \* tokens per line
          i, ncol, rows,    \* rows: << line, number of cells >>
          state             \* reading, ok, refused, told
vars == << rn, cn, lines, i, ncol, rows, state >>

Init == /\ rn \in BOOLEAN /\ cn \in BOOLEAN
        /\ \E n \in 1..MaxLines : lines \in [ 1..n -> 0..MaxTok ]
        /\ i = 1 /\ ncol = -1 /\ rows = <<>> /\ state = "reading"
Cells(l) == lines[l] - (IF rn THEN 1 ELSE 0)

\* the first line decides how many columns there are; there is at least one
First == /\ state = "reading" /\ i = 1
         /\ IF Cells(1) < 1 THEN state' = "refused" /\ UNCHANGED << ncol, rows, i >>
            ELSE ncol' = Cells(1) /\ rows' = (IF cn THEN <<>> ELSE << 1 >>) /\ i' = 2 /\ UNCHANGED state
         /\ UNCHANGED << rn, cn, lines >>
Line == /\ state = "reading" /\ i > 1 /\ i <= Len(lines)
        /\ IF Cells(i) # ncol THEN state' = "refused" /\ UNCHANGED << rows, i >>
           ELSE rows' = Append(rows, i) /\ i' = i + 1 /\ UNCHANGED state
        /\ UNCHANGED << rn, cn, lines, ncol >>
EndOfFile == /\ state = "reading" /\ i > Len(lines)
             /\ state' = IF rows = <<>> THEN "empty" ELSE "ok"
             /\ UNCHANGED << rn, cn, lines, i, ncol, rows >>
Tell == /\ state \in {"ok", "refused"} /\ state' = "told"
        /\ Emit([ rn |-> rn, cn |-> cn, lines |-> lines, ok |-> state = "ok", ncol |-> ncol, rows |-> rows ])
        /\ UNCHANGED << rn, cn, lines, i, ncol, rows >>
Next == First \/ Line \/ EndOfFile \/ Tell
Spec == Init /\ [][Next]_vars

\* a table is only accepted if all its lines are alike, and then no line is lost
Regular == state = "ok" => /\ \A a, b \in 1..Len(lines) : lines[a] = lines[b]
                           /\ Len(rows) = Len(lines) - (IF cn THEN 1 ELSE 0)
                           /\ ncol >= 1
=====================================================================
