------------------------------- MODULE ProcMask -------------------------------
(* Processing masks from an expression over an image of the data cube: tile by tile, pixel by pixel.

   job: tiles << [ tile, has (holds the input image), vals << values, -1 = nodata >> ] >>, expr (tree) *)
EXTENDS Emit

Given == InputsFrom("MASKJOBS")
CONSTANT Off                                  \* value of pixels without data in the input

RECURSIVE Eval(_, _)
Eval(e, a) ==
  CASE e.op = "gt"  -> a > e.k
    [] e.op = "lt"  -> a < e.k
    [] e.op = "eq"  -> a = e.k
    [] e.op = "ge"  -> a >= e.k
    [] e.op = "and" -> Eval(e.l, a) /\ Eval(e.r, a)
    [] e.op = "or"  -> Eval(e.l, a) \/ Eval(e.r, a)
    [] e.op = "not" -> ~ Eval(e.l, a)
    [] e.op = "mod" -> a % e.m = e.k

VARIABLES i, job, todo, masks
vars == << i, job, todo, masks >>
Holds == { n \in 1..Len(job.tiles) : job.tiles[n].has }
Init == /\ i \in 1..Len(Given) /\ job = Given[i]
        /\ todo = { n \in 1..Len(Given[i].tiles) : Given[i].tiles[n].has } /\ masks = << >>
\* tiles are independent of each other: any order gives the same masks, one order is enough here
Work == /\ todo # {}
        /\ LET n == MinSet(todo) v == job.tiles[n].vals IN
           /\ masks' = Append(masks, [ tile |-> job.tiles[n].tile,
                                       mask |-> [ q \in 1..Len(v) |-> IF v[q] = -1 THEN Off ELSE IF Eval(job.expr, v[q]) THEN 1 ELSE 0 ] ])
           /\ todo' = todo \ { n }
        /\ UNCHANGED << i, job >>
Next == Work /\ (todo' = {} => Emit([ i |-> i, masks |-> masks' ]))
Spec == Init /\ [][Next]_vars

Complete == todo = {} => { masks[n].tile : n \in 1..Len(masks) } = { job.tiles[n].tile : n \in Holds } /\ Len(masks) = Cardinality(Holds)
Binary == \A n \in 1..Len(masks) : \A q \in 1..Len(masks[n].mask) : masks[n].mask[q] \in { 0, 1, Off }
=====================================================================
