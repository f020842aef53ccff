------------------------------- MODULE Strata -------------------------------
(* Histograms and stratified samples of a class image. The histogram is counted pixel by pixel. A sample is judged point by
   point: a point takes its pixel; it must be the centre of a pixel of the class it is labelled with that has not been
   taken, and the class must not be exhausted.

   job: image << class >> (row by row), ncol, nodata, want << <<class, n>> >>,
        points << <<twice the column, twice the row, class>> >> (centre of pixel c: 2c + 1) *)
EXTENDS Emit
Given == InputsFrom("JOBS")

VARIABLES i, job, p, counts, k, taken, why
vars == << i, job, p, counts, k, taken, why >>
Init == i \in 1..Len(Given) /\ job = Given[i] /\ p = 0 /\ counts = << >> /\ k = 0 /\ taken = {} /\ why = ""

\* counts: sequence of << class, n >> by ascending class
Inc(s, c) == LET at == { q \in DOMAIN s : s[q][1] = c } IN
             IF at # {} THEN [ q \in DOMAIN s |-> IF q \in at THEN << c, s[q][2] + 1 >> ELSE s[q] ]
             ELSE LET lo == SelectSeq(s, LAMBDA e : e[1] < c)  hi == SelectSeq(s, LAMBDA e : e[1] > c) IN lo \o << << c, 1 >> >> \o hi
Count == /\ p < Len(job.image) /\ p' = p + 1
         /\ counts' = IF job.image[p + 1] = job.nodata THEN counts ELSE Inc(counts, job.image[p + 1])
         /\ UNCHANGED << i, job, k, taken, why >>
Q == job.points[k + 1]
Pixel == ((Q[2] - 1) \div 2) * job.ncol + ((Q[1] - 1) \div 2) + 1
Requested(c) == LET at == { q \in DOMAIN job.want : job.want[q][1] = c } IN IF at = {} THEN 0 ELSE job.want[CHOOSE q \in at : TRUE][2]
Had(c) == Cardinality({ t \in taken : job.image[t] = c })
Wrong == IF Q[1] % 2 = 0 \/ Q[2] % 2 = 0 THEN "not a centre"
         ELSE IF Q[1] < 0 \/ Q[1] > 2 * job.ncol \/ Pixel < 1 \/ Pixel > Len(job.image) THEN "outside"
         ELSE IF job.image[Pixel] = job.nodata THEN "nodata"
         ELSE IF job.image[Pixel] # Q[3] THEN "another class"
         ELSE IF Pixel \in taken THEN "pixel twice"
         ELSE IF Had(Q[3]) >= Requested(Q[3]) THEN "too many" ELSE ""
Take == /\ p = Len(job.image) /\ why = "" /\ k < Len(job.points) /\ k' = k + 1 /\ why' = Wrong
        /\ taken' = IF Wrong = "" THEN taken \cup { Pixel } ELSE taken
        /\ UNCHANGED << i, job, p, counts >>
End == /\ p = Len(job.image) /\ (k = Len(job.points) \/ why # "") /\ p' = p + 1 /\ UNCHANGED << i, job, counts, k, taken, why >>
       /\ Emit([ i |-> i, counts |-> counts, why |-> why, at |-> k ])
Spec == Init /\ [][Count \/ Take \/ End]_vars

RECURSIVE Sum2(_)
Sum2(s) == IF s = << >> THEN 0 ELSE Head(s)[2] + Sum2(Tail(s))
Total == p >= Len(job.image) => Sum2(counts) = Cardinality({ q \in DOMAIN job.image : job.image[q] # job.nodata })
Sorted == \A x, y \in DOMAIN counts : x < y => counts[x][1] < counts[y][1]
Distinct == why = "" => Cardinality(taken) = k
=====================================================================
