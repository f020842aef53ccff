------------------------------ MODULE Train ------------------------------
(* Training machine learning models: the sample is checked, split by drawing one sample after the other, weighted, and then both parts are told apart    *)
(* again in the order of the file. A job carries which samples a run took for training (seen); a split that could not have been drawn is not allowed.    *)
EXTENDS Emit, FiniteSets

Jobs == InputsFrom("JOBS")
\* job: n, m: rows of the response and feature files; cols, var: columns of the response file and requested one; response: class of each sample (1 .. n);
\*      classes: TRUE if classified; weights: "EQUALIZED", "PROPORTIONAL", "ANTIPROPORTIONAL" or "CUSTOM"; custom: seq of millionths; permille; random; seen: set (as seq)
VARIABLES i, phase, drawn, train
vars == <<i, phase, drawn, train>>
J == Jobs[i]
Seen == { J.seen[k] : k \in 1 .. Len(J.seen) }
Quota == (J.n * J.permille) \div 1000
Classes == { J.response[s] : s \in 1 .. J.n }
Count(c) == Cardinality({ s \in 1 .. J.n : J.response[s] = c })
Refused == \/ J.n < 1 \/ J.var > J.cols \/ J.m # J.n
           \/ (J.classes /\ J.weights = "CUSTOM" /\ Len(J.custom) # Cardinality(Classes))
\* weights in millionths, classes in ascending order
RECURSIVE SumOver(_, _)
SumOver(S, c) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN (IF c THEN 100000000 \div Count(x) ELSE Count(x)) + SumOver(S \ {x}, c)
Weight(c) == IF J.weights = "PROPORTIONAL" THEN RoundDiv(1000000 * Count(c), J.n)
             ELSE RoundDiv(100000000 \div Count(c), SumOver(Classes, TRUE) \div 1000) * 1000
Weights == IF ~J.classes \/ J.weights = "EQUALIZED" THEN << >>
           ELSE IF J.weights = "CUSTOM" THEN J.custom
           ELSE [k \in 1 .. Cardinality(Classes) |-> Weight(SortSet(Classes)[k])]
Init == i \in 1 .. Len(Jobs) /\ phase = "check" /\ drawn = 0 /\ train = {}
Check == /\ phase = "check"
         /\ phase' = IF Refused THEN "refused" ELSE "draw"
         /\ UNCHANGED <<i, drawn, train>>
\* the samples are alike: drawing the recorded ones in ascending order is one of the runs that lead to the recorded split
Draw == /\ phase = "draw" /\ drawn < Quota
        /\ LET left == IF J.random THEN Seen \ train ELSE { drawn + 1 } IN
           IF left = {} THEN phase' = "stuck" /\ UNCHANGED <<drawn, train>>
           ELSE drawn' = drawn + 1 /\ train' = train \cup { MinSet(left) } /\ phase' = phase
        /\ UNCHANGED i
Split == phase = "draw" /\ drawn = Quota /\ phase' = "done" /\ UNCHANGED <<i, drawn, train>>
Part(S) == [k \in 1 .. Cardinality(S) |-> SortSet(S)[k]]
Tell == /\ phase \in { "refused", "stuck", "done" }
        /\ Emit([i |-> i, refused |-> phase = "refused", allowed |-> phase = "done" /\ train = Seen, quota |-> Quota, train |-> Part(train),
                 rest |-> Part((1 .. J.n) \ train), weights |-> IF phase = "done" THEN Weights ELSE << >>])
        /\ phase' = "told" /\ UNCHANGED <<i, drawn, train>>
Next == Check \/ Draw \/ Split \/ Tell \/ (phase = "told" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Sizes == /\ Cardinality(train) = drawn /\ train \subseteq 1 .. J.n
         /\ (phase = "done" => Cardinality((1 .. J.n) \ train) = J.n - Quota)
WeightsSum == (phase = "done" /\ Weights # << >> /\ J.weights # "CUSTOM") => Abs(SumSeq(Weights) - 1000000) <= 1000 * Len(Weights)
Ends == <>(phase = "told")
\* expected to be violated
NoneRefused == phase # "refused"
All == phase = "done" => Quota = J.n
==========================================================================
