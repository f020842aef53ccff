------------------------------- MODULE Cso -------------------------------
(* Clear-sky observation statistics of one pixel. The acquisitions are visited in chronological order; the time axis
   is cut into windows of a number of months, the first one starting with the month in which the analysis starts and
   the last one covering its end. State: the current window, the last day a gap was closed at, the number of usable
   observations and the gaps of every window.

   configuration: from, to (dates)  step (months)  dates (chronological)  nalt  sta <<names of statistics>>
   alternatives of an observation: 1 usable, 2 flagged by a chosen condition, 3 no data *)
EXTENDS Calendar, Stats

Cfgs == InputsFrom("CFGS")
NC == Len(Cfgs)

MonthNo(t) == 12 * t[1] + t[2] - 1
FirstOfMonth(k) == << k \div 12, (k % 12) + 1, 1 >>
NumWin == [ k \in 1..NC |-> ((MonthNo(Cfgs[k].to) - MonthNo(Cfgs[k].from)) \div Cfgs[k].step) + 1 ]
Border == [ k \in 1..NC |-> [ i \in 1..(NumWin[k] + 1) |-> Ce(FirstOfMonth(MonthNo(Cfgs[k].from) + (i - 1) * Cfgs[k].step)) ] ]
Labels == [ k \in 1..NC |-> [ i \in 1..NumWin[k] |-> FirstOfMonth(MonthNo(Cfgs[k].from) + (i - 1) * Cfgs[k].step) ] ]

VARIABLES cfg, obs, t, w, left, num, gaps
vars == << cfg, obs, t, w, left, num, gaps >>

Day(i) == Ce(Cfgs[cfg].dates[i])
Done == w > NumWin[cfg]

Init == /\ cfg \in 1..NC
        /\ obs \in [ 1..Len(Cfgs[cfg].dates) -> 1..Cfgs[cfg].nalt ]
        /\ t = 1 /\ w = 1 /\ left = Border[cfg][1]
        /\ num = [ i \in 1..NumWin[cfg] |-> 0 ]
        /\ gaps = [ i \in 1..NumWin[cfg] |-> <<>> ]

Here == t <= Len(obs) /\ Day(t) < Border[cfg][w + 1]

\* an unusable observation leaves no trace
Pass == /\ ~ Done /\ Here /\ obs[t] # 1
        /\ t' = t + 1 /\ UNCHANGED << cfg, obs, w, left, num, gaps >>

\* a usable observation is counted; it closes a gap unless the day is already a border of one
Count == /\ ~ Done /\ Here /\ obs[t] = 1
         /\ num' = [ num EXCEPT ![w] = @ + 1 ]
         /\ gaps' = IF Day(t) > left THEN [ gaps EXCEPT ![w] = Append(@, Day(t) - left) ] ELSE gaps
         /\ left' = Day(t) /\ t' = t + 1 /\ UNCHANGED << cfg, obs, w >>

\* the end of a window closes its last gap and opens the next one
Close == /\ ~ Done /\ ~ Here
         /\ gaps' = [ gaps EXCEPT ![w] = Append(@, Border[cfg][w + 1] - left) ]
         /\ left' = Border[cfg][w + 1] /\ w' = w + 1
         /\ UNCHANGED << cfg, obs, t, num >>

Tell == /\ Done /\ t <= Len(obs) + 1 /\ t' = Len(obs) + 2
        /\ Emit([ cfg |-> cfg, obs |-> obs,
                  out |-> [ b \in 1..Len(Cfgs[cfg].sta) |-> [ i \in 1..NumWin[cfg] |->
                      IF Cfgs[cfg].sta[b] = "NUM" THEN << 1, num[i], 1 >> ELSE Stat(Cfgs[cfg].sta[b], gaps[i]) ] ],
                  labels |-> Labels[cfg] ])
        /\ UNCHANGED << cfg, obs, w, left, num, gaps >>

Next == Pass \/ Count \/ Close \/ Tell
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* the gaps of a finished window add up to its length
Tiling == \A i \in 1..(w - 1) : SumSeq(gaps[i]) = Border[cfg][i + 1] - Border[cfg][i]
Positive == \A i \in 1..NumWin[cfg] : \A j \in 1..Len(gaps[i]) : gaps[i][j] > 0
\* finally every usable observation has been counted in exactly one window
Counted == Done => SumSeq(num) = Cardinality({ i \in 1..Len(obs) : obs[i] = 1 })
\* the windows cover the whole range
Covers == /\ Border[cfg][1] <= Ce(Cfgs[cfg].from)
          /\ Border[cfg][NumWin[cfg] + 1] > Ce(Cfgs[cfg].to)
          /\ Border[cfg][NumWin[cfg]] <= Ce(Cfgs[cfg].to)
=====================================================================
