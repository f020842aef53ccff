---------------------------- MODULE UnitsTrace ----------------------------
(* Validates a recorded run of the real program against Units. The record lists raster accesses in the order in which they
   happened: kind ("read": the first access to the input of a unit, "again": a further one, "write": the product band b is written),
   unit u, and whether the unit had input (f). Computing leaves no record, it is inserted between. *)
EXTENDS Emit

Runs == InputsFrom("TRACES")

VARIABLES run, pos, at, bands
vars == << run, pos, at, bands >>
R == Runs[run]
UnitSet == 1..R.n
Fruitful(u) == R.fruitful[u]
A == INSTANCE Units WITH fruit <- [ u \in UnitSet |-> Fruitful(u) ]

Init == run \in DOMAIN Runs /\ pos = 1 /\ A!UInit /\ bands = [ u \in UnitSet |-> {} ]
More == pos <= Len(R.ev)
E == R.ev[pos]
\* hidden step, taken as late as possible: only when the next record needs it
Compute == /\ More /\ E.k = "write" /\ A!UCompute(E.u) /\ UNCHANGED << run, pos, bands >>
ReadFirst == More /\ E.k = "read" /\ A!URead(E.u) /\ pos' = pos + 1 /\ UNCHANGED << run, bands >>
ReadOn == More /\ E.k = "again" /\ at[E.u] \in { "input", "nothing" } /\ pos' = pos + 1 /\ UNCHANGED << run, at, bands >>
\* the first band written moves the unit on, every further one must be new
Write == /\ More /\ E.k = "write" /\ E.b \notin bands[E.u]
         /\ \/ A!UWrite(E.u)
            \/ at[E.u] = "written" /\ at' = at
         /\ bands' = [ bands EXCEPT ![E.u] = @ \cup { E.b } ] /\ pos' = pos + 1 /\ UNCHANGED run
\* the record is over: units without input may pass silently
Silent == /\ ~More /\ \E u \in UnitSet : ~Fruitful(u) /\ (A!URead(u) \/ A!UCompute(u)) /\ \A v \in 1..(u-1) : at[v] \in { "written", "empty" }
          /\ UNCHANGED << run, pos, bands >>
Next == Compute \/ ReadFirst \/ ReadOn \/ Write \/ Silent
Accepted == ~More /\ A!Finished /\ \A u \in UnitSet : bands[u] = (IF Fruitful(u) THEN { R.bands[i] : i \in 1..Len(R.bands) } ELSE {})
\* a state that cannot go on tells how far the record was followed
Stuck == ~ENABLED Next
Tell == Stuck => Emit([ run |-> run, ok |-> Accepted, pos |-> pos, at |-> at ])
=====================================================================
