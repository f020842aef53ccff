------------------------------- MODULE Learn -------------------------------
(***************************************************************************)
(* Predictions of the machine-learning module from features and forests.   *)
(*                                                                         *)
(* A forest is a sequence of trees.  A tree is a list of rules: the first  *)
(* rule whose feature does not exceed its cut decides, otherwise the       *)
(* default of the tree does.  A model set blends its models one after      *)
(* another.  In regressions, blending ends early as soon as another model  *)
(* (from the third one on) moves the mean by less than the convergence     *)
(* threshold; the number of models used, their mean and their spread are   *)
(* the result.  In classifications, every model names the class with most  *)
(* votes, the set answers with the class named most often, and the votes   *)
(* of all trees of all models make the class probabilities.                *)
(*                                                                         *)
(* Regression forests have one, two or four trees with whole leaves, thus  *)
(* predictions are whole quarters.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Emit

Cfg == InputsFrom("CONFIGS")
Px  == InputsFrom("PIXELS")      \* [cfg, x]

VARIABLES px, set, used, pred, phase
vars == <<px, set, used, pred, phase>>

RECURSIVE Decide(_, _, _)
Decide(rules, default, x) == IF rules = <<>> THEN default
                             ELSE IF x[Head(rules).var] <= Head(rules).cut THEN Head(rules).value
                             ELSE Decide(Tail(rules), default, x)
Leaf(tree, x) == Decide(tree.rules, tree.default, x)

C       == Cfg[Px[px].cfg]
X       == Px[px].x
Models  == C.sets[set]
Leaves(model) == [t \in 1..Len(model) |-> Leaf(model[t], X)]

(* regression: in quarters *)
Regress(model) == (SumSeq(Leaves(model)) * 4) \div Len(model)
(* classification: votes per class *)
Votes(model) == [c \in 1..C.classes |-> Cardinality({t \in 1..Len(model): Leaf(model[t], X) = c})]
Top(votes)   == {c \in DOMAIN votes: \A k \in DOMAIN votes: votes[c] >= votes[k]}

(* the mean over the first n predictions is Sum / n *)
Moves(q) ==       \* by how much the last prediction moves the mean, times n(n-1)
    LET n == Len(q) s == SumSeq(q) r == SumSeq(SubSeq(q, 1, n - 1)) d == s * (n - 1) - r * n IN IF d < 0 THEN -d ELSE d
Settled(q) == Len(q) >= 3 /\ Moves(q) * C.conv[2] < C.conv[1] * Len(q) * (Len(q) - 1)
Edge(q)    == Len(q) >= 3 /\ Moves(q) * C.conv[2] = C.conv[1] * Len(q) * (Len(q) - 1)

Ready == \/ used = Len(Models)
         \/ C.kind = "regression" /\ Settled(pred)

Result ==
    IF C.kind = "regression"
    THEN [px |-> px, set |-> set, used |-> used, sum |-> SumSeq(pred), squares |-> SumSeq([i \in 1..used |-> pred[i] * pred[i]]),
          unclear |-> \E n \in 3..used: Edge(SubSeq(pred, 1, n))]
    ELSE LET votes == [c \in 1..C.classes |-> SumSeq([i \in 1..used |-> pred[i][c]])]
             clear == \A i \in 1..used: Cardinality(Top(pred[i])) = 1
             named == [c \in 1..C.classes |-> Cardinality({i \in 1..used: c \in Top(pred[i])})]
             best  == CHOOSE c \in Top(votes): TRUE
             rest  == {votes[c]: c \in (1..C.classes) \ {best}}
             next  == IF rest = {} THEN 0 ELSE CHOOSE v \in rest: \A w \in rest: v >= w
         IN [px |-> px, set |-> set, used |-> used, votes |-> votes, trees |-> SumSeq(votes), class |-> Top(named), unclear |-> ~clear, margin |-> votes[best] - next]

Init == px \in 1..Len(Px) /\ set = 1 /\ used = 0 /\ pred = <<>> /\ phase = "blend"

Blend == /\ phase = "blend" /\ ~Ready
         /\ pred' = Append(pred, IF C.kind = "regression" THEN Regress(Models[used + 1]) ELSE Votes(Models[used + 1]))
         /\ used' = used + 1
         /\ UNCHANGED <<px, set, phase>>

Answer == /\ phase = "blend" /\ Ready
          /\ Emit(Result)
          /\ IF set < Len(C.sets) THEN set' = set + 1 /\ used' = 0 /\ pred' = <<>> /\ phase' = "blend"
                                  ELSE phase' = "done" /\ UNCHANGED <<set, used, pred>>
          /\ UNCHANGED px

Next == Blend \/ Answer
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ends == <>(phase = "done")

(* the blended answer lies within the answers of the models *)
Within == C.kind = "regression" /\ used > 0 =>
          /\ \E i \in 1..used: pred[i] * used <= SumSeq(pred)
          /\ \E i \in 1..used: pred[i] * used >= SumSeq(pred)
(* every tree votes once *)
AllVote == C.kind = "classification" => \A i \in 1..used: SumSeq(pred[i]) = Len(Models[i])
(* without a threshold nothing ends early, and never before three models *)
EnoughUsed == phase = "blend" /\ Ready /\ used < Len(Models) => used >= 3 /\ C.conv[1] > 0

(* must be violated *)
AllUsed  == phase = "blend" /\ Ready => used = Len(Models)
NoTie    == C.kind = "classification" /\ phase = "blend" /\ Ready => Result.margin > 0
=============================================================================
