------------------------------- MODULE Fifo -------------------------------
(* The bounded first-in first-out queue of image coordinates, as a check of recorded calls: a queue made for n entries
   takes at least n - 1 and at most n of them; whether it takes the n-th is its own decision. *)
EXTENDS Emit
Traces == InputsFrom("TRACES")       \* [size, ops << [op, x, y, ok] >>]
VARIABLES tr, i, q
vars == << tr, i, q >>
Init == tr \in 1..Len(Traces) /\ i = 1 /\ q = <<>>
Op == Traces[tr].ops[i]
Put == /\ i <= Len(Traces[tr].ops) /\ Op.op = "put"
       /\ \/ /\ Op.ok = 1 /\ Len(q) < Traces[tr].size /\ q' = Append(q, << Op.x, Op.y >>)
          \/ /\ Op.ok = 0 /\ Len(q) >= Traces[tr].size - 1 /\ q' = q
       /\ i' = i + 1 /\ UNCHANGED tr
Get == /\ i <= Len(Traces[tr].ops) /\ Op.op = "get"
       /\ \/ /\ Op.ok = 1 /\ q # <<>> /\ Head(q) = << Op.x, Op.y >> /\ q' = Tail(q)
          \/ /\ Op.ok = 0 /\ q = <<>> /\ q' = q
       /\ i' = i + 1 /\ UNCHANGED tr
End == /\ i = Len(Traces[tr].ops) + 1 /\ i' = i + 1 /\ Emit([ tr |-> tr ]) /\ UNCHANGED << tr, q >>
Next == Put \/ Get \/ End
Spec == Init /\ [][Next]_vars
=====================================================================
