---------------------------- MODULE Units ----------------------------
(* What a higher-level run owes its caller, without saying how it is organised: every processing unit (a chunk of an active
   tile) is read, then computed, then written - once, and only if there is something to write. *)
EXTENDS Integers, FiniteSets

VARIABLES at,          \* unit -> "new" | "input" | "nothing" | "output" | "empty" | "written"
          fruit        \* unit -> does this unit have input in an unmasked area? (never changes)

Unit == DOMAIN fruit
Fruitful(u) == fruit[u]

UInit == at = [ u \in Unit |-> "new" ]
URead(u) == at[u] = "new" /\ at' = [ at EXCEPT ![u] = IF Fruitful(u) THEN "input" ELSE "nothing" ]
UCompute(u) == at[u] \in { "input", "nothing" } /\ at' = [ at EXCEPT ![u] = IF at[u] = "input" THEN "output" ELSE "empty" ]
UWrite(u) == at[u] = "output" /\ at' = [ at EXCEPT ![u] = "written" ]
UNext == \E u \in Unit : URead(u) \/ UCompute(u) \/ UWrite(u)
USpec == UInit /\ [][UNext]_at

Finished == \A u \in Unit : at[u] \in { "written", "empty" }
Settled(u) == at[u] = IF Fruitful(u) THEN "written" ELSE "empty"
=====================================================================
