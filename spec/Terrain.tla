----------------------------- MODULE Terrain -----------------------------
(* Terrain of an image: sea is filled in from the coast in four sweeps, then each pixel gets slope and illumination from the heights around it, and is   *)
(* without data if one of these is missing. Pixels at the border take the terrain of the pixel next to them.                                             *)
EXTENDS Emit, TLC

Jobs == InputsFrom("JOBS")
\* job: dem: grid of heights (m); hole: height that means no data; gap: grid of 0/1 (1: no image data); sun: << cos(zenith), east, north >> in thousandths,
\*      the horizontal parts pointing towards the sun
CONSTANT Cell                       \* size of a pixel (m)
VARIABLES i, sweep, dem, row, out
vars == <<i, sweep, dem, row, out>>
J == Jobs[i]
Ny == Len(J.dem)
Nx == Len(J.dem[1])
Inside(r, c) == r \in 1 .. Ny /\ c \in 1 .. Nx
\* in one sweep, no data turn into sea level as long as the pixel before is at sea level
Fill(z, before) == IF z = J.hole /\ before = 0 THEN 0 ELSE z
RECURSIVE Run(_, _)                 \* a line of heights, swept from its start
Run(line, k) == IF k > Len(line) THEN line
                ELSE Run(IF k = 1 THEN line ELSE TLCEval([line EXCEPT ![k] = Fill(line[k], line[k - 1])]), k + 1)
Rev(s) == LET n == Len(s) IN [k \in 1 .. Len(s) |-> s[n + 1 - k]]
Column(c) == [r \in 1 .. Ny |-> dem[r][c]]
Down == LET col == TLCEval([c \in 1 .. Nx |-> Run(Column(c), 1)]) IN [r \in 1 .. Ny |-> [c \in 1 .. Nx |-> col[c][r]]]
Up == LET col == TLCEval([c \in 1 .. Nx |-> Rev(Run(TLCEval(Rev(Column(c))), 1))]) IN [r \in 1 .. Ny |-> [c \in 1 .. Nx |-> col[c][r]]]
RightWards == [r \in 1 .. Ny |-> Run(dem[r], 1)]
LeftWards == [r \in 1 .. Ny |-> Rev(Run(Rev(dem[r]), 1))]
\* the pixel whose terrain counts
InR(r) == Max2(2, Min2(Ny - 1, r))
InC(c) == Max2(2, Min2(Nx - 1, c))
Missing(r, c) == \E a \in -1 .. 1, b \in -1 .. 1 : dem[r + a][c + b] = J.hole
Gx(r, c) == (dem[r - 1][c + 1] + 2 * dem[r][c + 1] + dem[r + 1][c + 1]) - (dem[r - 1][c - 1] + 2 * dem[r][c - 1] + dem[r + 1][c - 1])
Gy(r, c) == (dem[r + 1][c - 1] + 2 * dem[r + 1][c] + dem[r + 1][c + 1]) - (dem[r - 1][c - 1] + 2 * dem[r - 1][c] + dem[r - 1][c + 1])
RECURSIVE Newton(_, _)
Newton(v, x) == LET y == (x + v \div x) \div 2 IN IF y >= x THEN x ELSE Newton(v, y)
Root(v) == IF v = 0 THEN 0 ELSE Newton(v, v)
Base == 8 * Cell
Steep2(gx, gy) == gx * gx + gy * gy
\* cosine of the angle between the sun and the normal of the surface, in thousandths
Light(gx, gy) == LET n == J.sun[1] * Base + (J.sun[3] * gy - J.sun[2] * gx)
                     len == Root(100 * (Base * Base + Steep2(gx, gy)))
                 IN (10 * n) \div len
Class(v) == IF v < 0 THEN 3 ELSE IF v < 174 THEN 2 ELSE IF v < 574 THEN 1 ELSE 0
\* 2 degrees: tangent 0.0349208
Slopes(s2) == s2 * 100 > (Base * Base * 122) \div 1000
Pixel(r, c) == LET y == InR(r) x == InC(c) IN
   IF J.gap[r][c] = 1 \/ Missing(y, x) THEN << 1, 0, 0, 0, 0 >>
   ELSE LET gx == Gx(y, x) gy == Gy(y, x) v == Light(gx, gy) IN
        << 0, Class(v), IF Slopes(Steep2(gx, gy)) THEN 1 ELSE 0, v, Steep2(gx, gy) >>
Init == i \in 1 .. Len(Jobs) /\ sweep = 0 /\ dem = Jobs[i].dem /\ row = 1 /\ out = << >>
Sweep == /\ sweep < 4
         /\ dem' = CASE sweep = 0 -> Down [] sweep = 1 -> Up [] sweep = 2 -> RightWards [] OTHER -> LeftWards
         /\ sweep' = sweep + 1 /\ UNCHANGED <<i, row, out>>
Row == /\ sweep = 4 /\ row <= Ny
       /\ out' = Append(out, [c \in 1 .. Nx |-> Pixel(row, c)])
       /\ row' = row + 1 /\ UNCHANGED <<i, sweep, dem>>
Tell == row = Ny + 1 /\ Emit([i |-> i, out |-> out]) /\ row' = Ny + 2 /\ UNCHANGED <<i, sweep, dem, out>>
Next == Sweep \/ Row \/ Tell \/ (row = Ny + 2 /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* land stays as it is
LandKept == \A r \in 1 .. Ny, c \in 1 .. Nx : J.dem[r][c] # J.hole => dem[r][c] = J.dem[r][c]
\* flat terrain is lit by the sun alone
Flat == \A r \in 1 .. Len(out) : \A c \in 1 .. Nx : (out[r][c][1] = 0 /\ out[r][c][5] = 0) => out[r][c][4] \in (J.sun[1] - 1) .. (J.sun[1] + 1)
Ends == <>(row = Ny + 2)
\* expected to be violated
NoSea == dem = J.dem
NoShadow == \A r \in 1 .. Len(out) : \A c \in 1 .. Nx : out[r][c][2] # 3
==========================================================================
