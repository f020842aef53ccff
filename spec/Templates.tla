------------------------------- MODULE Templates -------------------------------
(* Expanding a parameter template: one file per combination of the values of all variables. The counter runs over the
   combinations like an odometer (mode "all") or over the positions of all vectors at once (mode "paired").
   All shapes up to MaxVars variables with up to MaxVals values are explored. *)
EXTENDS Emit
CONSTANTS MaxVars, MaxVals

VARIABLES lens, mode, at, done, files
vars == << lens, mode, at, done, files >>
Shapes == UNION { [ 1..n -> 1..MaxVals ] : n \in 1..MaxVars }
Init == /\ lens \in Shapes /\ mode \in { "all", "paired" } /\ files = << >>
        /\ at = [ v \in DOMAIN lens |-> 1 ]
        /\ done = (mode = "paired" /\ \E v, w \in DOMAIN lens : lens[v] # lens[w])     \* refused

AtEnd == \A v \in DOMAIN lens : at[v] = lens[v]
\* the last variable that is not at its end moves on, all behind it start again
Turn == LET v == MaxSet({ u \in DOMAIN lens : at[u] < lens[u] }) IN
          [ u \in DOMAIN lens |-> IF u < v THEN at[u] ELSE IF u = v THEN at[u] + 1 ELSE 1 ]
Write == /\ ~ done /\ files' = Append(files, at)
         /\ IF AtEnd THEN done' = TRUE /\ UNCHANGED at
            ELSE done' = FALSE /\ at' = IF mode = "all" THEN Turn ELSE [ u \in DOMAIN lens |-> at[u] + 1 ]
         /\ UNCHANGED << lens, mode >>
         /\ (AtEnd => Emit([ lens |-> lens, mode |-> mode, files |-> Append(files, at) ]))
Refuse == /\ done /\ files = << >> /\ UNCHANGED vars
Spec == Init /\ [][Write]_vars

RECURSIVE Product(_)
Product(s) == IF s = << >> THEN 1 ELSE Head(s) * Product(Tail(s))
Once == \A a, b \in DOMAIN files : a # b => files[a] # files[b]
Count == done /\ files # << >> => Len(files) = IF mode = "all" THEN Product(lens) ELSE lens[1]
Full == done /\ files # << >> /\ mode = "all" => \A c \in { f \in [ DOMAIN lens -> 1..MaxVals ] : \A v \in DOMAIN lens : f[v] <= lens[v] } : \E q \in DOMAIN files : files[q] = c
=====================================================================
