---------------------------- MODULE Pipeline ----------------------------
(* force-higher-level as it is organised: the active tiles are cut into chunks, chunk after chunk passes a three-stage
   pipeline. In tick t unit t is read, unit t-1 is computed and unit t-2 is written; with streaming the three stages of a
   tick run at the same time, without it one after another. A tick ends when all three stages are done.
   The driver hands over jobs (tile range, allow-list, chunk layout, where there is input, where the mask is set ...) and gets
   back which chunks hold data and how the program must exit. *)
EXTENDS Emit

CONSTANT Barrier       \* TRUE: as built. FALSE: the next tick may start early (must be caught by the invariants)

Jobs == InputsFrom("JOBS")

VARIABLES job, at, tick, stage, bytesIn, bytesOut
vars == << job, at, tick, stage, bytesIn, bytesOut >>

J == Jobs[job]
SeqSet(s) == { s[i] : i \in 1..Len(s) }

\* ------------------------------------------------ which tiles, which chunks
Allowed(j, x, y) == ~j.haslist \/ << x, y >> \in SeqSet(j.list)
TilesOf(j) == LET w == j.x1 - j.x0 + 1
                  n == w * (j.y1 - j.y0 + 1)
                  all == [ i \in 1..n |-> << j.x0 + ((i-1) % w), j.y0 + ((i-1) \div w) >> ]
              IN SelectSeq(all, LAMBDA t : Allowed(j, t[1], t[2]))
UnitsOf(j) == LET ts == TilesOf(j)
                  c == j.cols * j.rows
              IN [ u \in 0..(Len(ts)*c - 1) |-> [ tile |-> ts[(u \div c) + 1], cx |-> u % j.cols, cy |-> (u % c) \div j.cols ] ]
Table == [ k \in DOMAIN Jobs |-> [ units |-> UnitsOf(Jobs[k]), n |-> Len(TilesOf(Jobs[k])) * Jobs[k].cols * Jobs[k].rows,
                                   input |-> SeqSet(Jobs[k].input), open |-> SeqSet(Jobs[k].open) ] ]
N == Table[job].n
UnitSet == 0..(N-1)
U(u) == Table[job].units[u]
HasInput(u) == U(u).tile \in Table[job].input
Unmasked(u) == ~J.masked \/ << U(u).tile[1], U(u).tile[2], U(u).cx, U(u).cy >> \in Table[job].open
Fruitful(u) == HasInput(u) /\ Unmasked(u)

\* ------------------------------------------------ the pipeline
Stages == { "read", "compute", "write" }
Unit4(s, t) == CASE s = "read" -> t [] s = "compute" -> t - 1 [] OTHER -> t - 2
Mine(s) == Unit4(s, tick)
Before(s) == IF J.stream THEN {} ELSE CASE s = "read" -> {} [] s = "compute" -> { "read" } [] OTHER -> { "read", "compute" }

Init == /\ job \in DOMAIN Jobs /\ at = [ u \in UnitSet |-> "new" ] /\ tick = 0 /\ stage = [ s \in Stages |-> "wait" ]
        /\ bytesIn = 0 /\ bytesOut = 0
Running == N > 0 /\ tick <= N + 1

Begin(s) == /\ Running /\ stage[s] = "wait" /\ \A b \in Before(s) : stage[b] = "done"
            /\ stage' = [ stage EXCEPT ![s] = IF Mine(s) \in UnitSet THEN "busy" ELSE "done" ]
            /\ UNCHANGED << job, at, tick, bytesIn, bytesOut >>
EndRead == /\ stage["read"] = "busy" /\ stage' = [ stage EXCEPT !["read"] = "done" ]
           /\ LET u == Mine("read") IN
              /\ at' = [ at EXCEPT ![u] = IF at[u] # "new" THEN "clash" ELSE IF Fruitful(u) THEN "input" ELSE "nothing" ]
              /\ bytesIn' = bytesIn + IF Fruitful(u) THEN 1 ELSE 0
           /\ UNCHANGED << job, tick, bytesOut >>
EndCompute == /\ stage["compute"] = "busy" /\ stage' = [ stage EXCEPT !["compute"] = "done" ]
              /\ LET u == Mine("compute") IN
                 at' = [ at EXCEPT ![u] = CASE at[u] = "input" -> "output" [] at[u] = "nothing" -> "empty" [] OTHER -> "clash" ]
              /\ UNCHANGED << job, tick, bytesIn, bytesOut >>
EndWrite == /\ stage["write"] = "busy" /\ stage' = [ stage EXCEPT !["write"] = "done" ]
            /\ LET u == Mine("write") IN
               /\ at' = [ at EXCEPT ![u] = CASE at[u] = "output" -> "written" [] at[u] = "empty" -> "empty" [] OTHER -> "clash" ]
               /\ bytesOut' = bytesOut + IF at[u] = "output" THEN 1 ELSE 0
            /\ UNCHANGED << job, tick, bytesIn >>
Tick == /\ Running /\ IF Barrier THEN \A s \in Stages : stage[s] = "done" ELSE stage["read"] = "done" /\ \A s \in Stages : stage[s] # "busy"
        /\ tick' = tick + 1 /\ stage' = [ s \in Stages |-> "wait" ] /\ UNCHANGED << job, at, bytesIn, bytesOut >>
Next == (\E s \in Stages : Begin(s)) \/ EndRead \/ EndCompute \/ EndWrite \/ Tick
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == ~Running
ExitOk == N > 0 /\ (J.strict => bytesIn > 0 /\ bytesOut > 0)

\* ------------------------------------------------ what has to hold
Exclusive == \A s1, s2 \in Stages : s1 # s2 /\ stage[s1] = "busy" /\ stage[s2] = "busy" => Mine(s1) # Mine(s2)
NoClash == \A u \in UnitSet : at[u] # "clash"
Complete == Done => \A u \in UnitSet : at[u] = IF Fruitful(u) THEN "written" ELSE "empty"
Counted == Done => /\ bytesIn = Cardinality({ u \in UnitSet : Fruitful(u) }) /\ bytesOut = bytesIn
Distinct == \A u, v \in UnitSet : u # v => U(u) # U(v)
CoversTiles == { << U(u).tile[1], U(u).tile[2] >> : u \in UnitSet } =
               { t \in (J.x0..J.x1) \X (J.y0..J.y1) : Allowed(J, t[1], t[2]) }
Terminates == <>Done

A == INSTANCE Units WITH fruit <- [ u \in UnitSet |-> Fruitful(u) ]
Refines == [][ \/ UNCHANGED at
               \/ \E u \in UnitSet : A!URead(u) \/ A!UCompute(u) \/ A!UWrite(u) ]_at

Tell == Done => Emit([ job |-> job, ok |-> ExitOk,
                       tiles |-> TilesOf(J),
                       written |-> SetToSeq({ << U(u).tile[1], U(u).tile[2], U(u).cx, U(u).cy >> : u \in { v \in UnitSet : at[v] = "written" } }) ])
=====================================================================
