---------------------------- MODULE Synthmix ----------------------------
(* Synthetic mixtures. A mixture has a number of members (its complexity, drawn from the allowed ones). The first member is of  *)
(* the target class, the others are of the classes in use: of any of them where mixing within a class is allowed, of distinct   *)
(* other classes where it is not. The members are samples of the library and get shares that add up to the whole; the share of  *)
(* the first member is the response. A library in which sample i is the only one with feature i lets the features of a mixture  *)
(* tell the share of every sample.                                                                                              *)
EXTENDS Emit

\* job: class (of each sample), use, target, complexity (allowed, with weights > 0), within, whole, tol
Samples(j) == 1 .. Len(j.class)
Used(j) == { j.use[i] : i \in 1 .. Len(j.use) }
Allowed(j) == { j.complexity[i] : i \in 1 .. Len(j.complexity) }
Of(j, S, c) == { s \in S : j.class[s] = c }

Near(a, b, tol) == Abs(a - b) <= tol

\* can this row have been drawn? "" or the reason why not
Why(j, row) ==
  LET S == { s \in Samples(j) : row.shares[s] # 0 }
      T == Of(j, S, j.target)
      fits(c) == /\ Cardinality(S) <= c
                 /\ IF c = 1 THEN Near(row.response, j.whole, j.tol) ELSE row.response < j.whole + j.tol
                 /\ \E s \in T : IF Cardinality(S) = c THEN Near(row.shares[s], row.response, j.tol)
                                 ELSE row.shares[s] >= row.response - j.tol
  IN CASE Len(row.shares) # Len(j.class) -> "number of features"
       [] \E s \in Samples(j) : row.shares[s] < 0 -> "negative share"
       [] ~Near(SumSeq(row.shares), j.whole, Len(j.class) * j.slack) -> "shares do not add up to the whole"
       [] \E s \in S : j.class[s] \notin Used(j) -> "member of a class that is not in use"
       [] T = {} -> "no member of the target class"
       [] ~j.within /\ \E s, t \in S : s # t /\ j.class[s] = j.class[t] -> "two members of a class"
       [] ~j.within /\ Cardinality(S) \notin Allowed(j) -> "number of members"
       [] ~j.within /\ ~Near(row.shares[CHOOSE s \in T : TRUE], row.response, j.tol) -> "response is not the share of the target"
       [] j.within /\ ~(\E c \in Allowed(j) : fits(c)) -> "no draw explains the response"
       [] OTHER -> ""

-------------------------------------------------------------------------
(* the drawing, step by step, for a small library *)
VARIABLES job, size, members, parts
vars == <<job, size, members, parts>>

Small == { [class |-> <<1, 1, 2, 3>>, use |-> u, target |-> t, complexity |-> c, within |-> w, whole |-> 6, tol |-> 0, slack |-> 0]
             : u \in {<<1, 2, 3>>, <<1, 2>>}, t \in {1, 2}, c \in {<<1>>, <<2>>, <<1, 3>>, <<2, 3>>}, w \in BOOLEAN }
\* without mixing within a class there must be enough classes
Possible(j) == j.within \/ \A c \in Allowed(j) : c <= Cardinality(Used(j))

Init == /\ job \in { j \in Small : Possible(j) }
        /\ size = 0 /\ members = <<>> /\ parts = <<>>

Draw == size = 0 /\ size' \in Allowed(job) /\ UNCHANGED <<job, members, parts>>

MayJoin(s) ==
  IF members = <<>> THEN job.class[s] = job.target
  ELSE /\ job.class[s] \in Used(job)
       /\ job.within \/ \A i \in 1 .. Len(members) : job.class[members[i]] # job.class[s]

Join == /\ size > 0 /\ Len(members) < size
        /\ \E s \in Samples(job) : MayJoin(s) /\ members' = Append(members, s)
        /\ UNCHANGED <<job, size, parts>>

Share == /\ size > 0 /\ Len(members) = size /\ Len(parts) < size
         /\ LET left == job.whole - SumSeq(parts) IN
            \E p \in 1 .. left :
              /\ IF Len(parts) = size - 1 THEN p = left ELSE p <= left - (size - 1 - Len(parts))
              /\ parts' = Append(parts, p)
         /\ UNCHANGED <<job, size, members>>

Done == size > 0 /\ Len(parts) = size

RowOf(j, m, p) == [shares |-> [s \in Samples(j) |-> SumSeq([i \in 1 .. Len(m) |-> IF m[i] = s THEN p[i] ELSE 0])], response |-> p[1]]

Next == Draw \/ Join \/ Share \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* every drawn mixture is explained, and ends
Sound == Done => Why(job, RowOf(job, members, parts)) = ""
Whole == Done => SumSeq(parts) = job.whole
Ends == <>Done
\* expected to be violated: mixtures in which a sample is drawn twice exist
NeverTwice == ~(Done /\ \E a, b \in 1 .. size : a # b /\ members[a] = members[b])

\* and whatever is explained can be drawn
Parts(n, whole) == { p \in [1 .. n -> 1 .. whole] : SumSeq(p) = whole }
Drawable(j, row) ==
  \E c \in Allowed(j) : \E m \in [1 .. c -> Samples(j)] :
    /\ j.class[m[1]] = j.target
    /\ \A i \in 2 .. c : j.class[m[i]] \in Used(j)
    /\ j.within \/ \A a, b \in 1 .. c : a # b => j.class[m[a]] # j.class[m[b]]
    /\ \E p \in Parts(c, j.whole) : RowOf(j, m, p) = row
\* (shares large enough to be split further)
Rows(j) == { [shares |-> v, response |-> r] : v \in { w \in [Samples(j) -> {0} \cup 2 .. j.whole] : SumSeq(w) = j.whole }, r \in (1 .. j.whole) \ {j.whole - 1} }
Complete == (size = 0) => \A row \in Rows(job) : (Why(job, row) = "") => Drawable(job, row)

-------------------------------------------------------------------------
(* judging what the program wrote: every row, and whether the draws follow the likelihoods (within six standard deviations) *)
Fair(count, weight) ==
  LET n == SumSeq(count)
      w == SumSeq(weight)
  IN \A i \in 1 .. Len(count) : (w * count[i] - n * weight[i]) * (w * count[i] - n * weight[i]) <= 36 * n * weight[i] * (w - weight[i])

Count(rows, P(_)) == Cardinality({ i \in 1 .. Len(rows) : P(rows[i]) })
SizeOf(j, row) == Cardinality({ s \in Samples(j) : row.shares[s] # 0 })
InClass(j, c) == Cardinality({ s \in Samples(j) : j.class[s] = c })

\* likelihood of a class: given, the same for all, or the number of its samples
WeightOf(j, c) == CASE j.likelihood = "equalized" -> 1
                    [] j.likelihood = "proportional" -> InClass(j, c)
                    [] OTHER -> j.weight[CHOOSE i \in 1 .. Len(j.use) : j.use[i] = c]

\* class of the second of two members
Companion(j, row) ==
  LET S == { s \in Samples(j) : row.shares[s] # 0 }
      other == { s \in S : j.class[s] # j.target }
  IN IF other = {} THEN j.target ELSE j.class[CHOOSE s \in other : TRUE]

Others(j) == SelectSeq(j.use, LAMBDA c : j.within \/ c # j.target)
Mine(j) == SortSet(Of(j, Samples(j), j.target))

FairSize(j) == LET n == Len(j.complexity) IN
  j.within \/ Fair([i \in 1 .. n |-> Count(j.rows, LAMBDA r : SizeOf(j, r) = j.complexity[i])], j.chance)
FairClass(j) == LET o == Others(j) IN
  Allowed(j) # {2} \/ Fair([i \in 1 .. Len(o) |-> Count(j.rows, LAMBDA r : Companion(j, r) = o[i])], [i \in 1 .. Len(o) |-> WeightOf(j, o[i])])
FairSample(j) == LET m == Mine(j) IN
  j.within \/ Fair([i \in 1 .. Len(m) |-> Count(j.rows, LAMBDA r : r.shares[m[i]] # 0)], [i \in 1 .. Len(m) |-> 1])
FairShare(j) == 1 \in Allowed(j) \/ LET low == Count(j.rows, LAMBDA r : r.response < j.whole \div 2) IN Fair(<<low, Len(j.rows) - low>>, <<1, 1>>)

Jobs == InputsFrom("JOBS")
Judge(i) ==
  LET j == Jobs[i]
      bad == { k \in 1 .. Len(j.rows) : Why(j, j.rows[k]) # "" }
      first == IF bad = {} THEN 0 ELSE MinSet(bad)
  IN Emit([i |-> i, at |-> first, why |-> IF first = 0 THEN "" ELSE Why(j, j.rows[first]),
           unfair |-> IF bad # {} THEN {} ELSE
                      (IF FairSize(j) THEN {} ELSE {"number of members"}) \cup (IF FairClass(j) THEN {} ELSE {"classes of members"})
                      \cup (IF FairSample(j) THEN {} ELSE {"samples of the target class"}) \cup (IF FairShare(j) THEN {} ELSE {"shares"})])

JudgeInit == /\ \A i \in 1 .. Len(Jobs) : Judge(i)
             /\ job = [class |-> <<>>] /\ size = 0 /\ members = <<>> /\ parts = <<>>
JudgeSpec == JudgeInit /\ [][UNCHANGED vars]_vars
=========================================================================
