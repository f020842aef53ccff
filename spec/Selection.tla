---------------------------- MODULE Selection ----------------------------
(* Which images of a tile take part in an analysis. The tile holds a catalogue of files; the request names sensors,
   product, date range, day-of-year range and the last day for Landsat 7. Files are considered one after another (in any
   order: the result must not depend on it); selected images are kept in chronological order. *)
EXTENDS Calendar, Sensors

Reqs == InputsFrom("REQS")
Files == InputsFrom("FILES")             \* [date, sensor, product, image]

VARIABLES req, todo, sel
vars == << req, todo, sel >>

Q == Reqs[req]
Wanted(f) ==
  /\ f.image
  /\ f.sensor \in Range(Q.sensors)
  /\ f.product = Q.product
  /\ Ce(f.date) >= Ce(Q.from)
  /\ Ce(f.date) <= Ce(Q.to)
  /\ Doy(f.date) \in DoyRange(Q.doy[1], Q.doy[2])
  /\ (f.sensor = "LND07" => Ce(f.date) <= Ce(Q.ignore7))

RECURSIVE InsertByDate(_, _)
InsertByDate(s, i) == IF s = <<>> THEN << i >>
                      ELSE IF Ce(Files[i].date) < Ce(Files[Head(s)].date) THEN << i >> \o s
                      ELSE << Head(s) >> \o InsertByDate(Tail(s), i)

BandOf(sensor, b) == CHOOSE k \in 1..Len(SensorBands[sensor]) : SensorBands[sensor][k] = b

Init == req \in 1..Len(Reqs) /\ todo = 1 /\ sel = <<>>
Consider == /\ todo <= Len(Files)
            /\ sel' = IF Wanted(Files[todo]) THEN InsertByDate(sel, todo) ELSE sel
            /\ todo' = todo + 1
            /\ req' = req
            /\ (todo' > Len(Files) =>
                  Emit([ req |-> req, sel |-> sel', bands |-> [ s \in Range(Q.sensors) |-> [ i \in 1..Len(Q.bands) |-> BandOf(s, Q.bands[i]) ] ] ]))
Next == Consider

Chronological == \A a, b \in 1..Len(sel) : a < b => Ce(Files[sel[a]].date) <= Ce(Files[sel[b]].date)
OnceEach == \A a, b \in 1..Len(sel) : sel[a] = sel[b] => a = b
InsideRange == \A a \in 1..Len(sel) : LET f == Files[sel[a]] IN Ce(f.date) \in Ce(Q.from)..Ce(Q.to)
Complete == todo > Len(Files) => \A i \in 1..Len(Files) : Wanted(Files[i]) => \E a \in 1..Len(sel) : sel[a] = i
=====================================================================
