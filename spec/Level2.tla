---------------------------- MODULE Level2 ----------------------------
(* A Level 2 data cube that receives images: each image is cut into the tiles of the grid, and images of one day and
   sensor are merged into the tile that is already there. A scenario fixes the grid, the limits and the images; the order
   of the images (and, for single images, their position) is explored. Pixels carry their quality word and the set of
   images that contributed; the driver translates contributors into admissible reflectances. *)
EXTENDS Qai

Scenarios == InputsFrom("SCENARIOS")
(* scenario: [ id, tx, ty: tile size, allow: sequence of <<x, y>> (empty: all tiles), maxf, maxt: limits in percent,
               len: number of images processed, once: every image at most once, pos: sequence of <<dx, dy>>,
               imgs: sequence of [ x, y: grid cell of the first pixel, pre: placed by an earlier run, w: rows of words ] ] *)

VARIABLES sc, cube, hist
vars == << sc, cube, hist >>

S == Scenarios[sc]
Img(i) == S.imgs[i]
Cells(i) == { << r, c >> \in (1..Len(Img(i).w)) \X (1..Len(Img(i).w[1])) : ValidWord(Img(i).w[r][c]) }
WordAt(i, rc) == Img(i).w[rc[1]][rc[2]]

\* grid cell (column, row) of a pixel of image i displaced by d
Gx(i, d, rc) == Img(i).x + d[1] + rc[2] - 1
Gy(i, d, rc) == Img(i).y + d[2] + rc[1] - 1
TileOf(i, d, rc) == << Gx(i, d, rc) \div S.tx, Gy(i, d, rc) \div S.ty >>
InTile(i, d, rc) == << (Gy(i, d, rc) % S.ty) + 1, (Gx(i, d, rc) % S.tx) + 1 >>      \* row, column

Exceeds(cells, i, limit) == 100 * Cardinality({ rc \in cells : Cloudy(WordAt(i, rc)) }) > limit * Cardinality(cells)
FrameRejected(i) == ~ Img(i).pre /\ Exceeds(Cells(i), i, S.maxf)
TileCells(i, d, tile) == { rc \in Cells(i) : TileOf(i, d, rc) = tile }
Allowed(tile) == Len(S.allow) = 0 \/ \E k \in 1..Len(S.allow) : << S.allow[k][1], S.allow[k][2] >> = tile
Writes(i, d) == IF FrameRejected(i) THEN {}
                ELSE { tile \in { TileOf(i, d, rc) : rc \in Cells(i) } :
                         Img(i).pre \/ (Allowed(tile) /\ ~ Exceeds(TileCells(i, d, tile), i, S.maxt)) }

Nothing == [ w |-> 1, src |-> {} ]
EmptyTile == [ p \in (1..S.ty) \X (1..S.tx) |-> Nothing ]
\* the image pixel that belongs to pixel p of a tile, and whether it brings data
ImgCell(i, d, tile, p) == << tile[2] * S.ty + p[1] - Img(i).y - d[2], tile[1] * S.tx + p[2] - Img(i).x - d[1] >>
Inside(i, rc) == rc[1] \in 1..Len(Img(i).w) /\ rc[2] \in 1..Len(Img(i).w[1])
Brings(i, d, tile, p) == LET rc == ImgCell(i, d, tile, p) IN Inside(i, rc) /\ ValidWord(WordAt(i, rc))
Merge(old, i, d, tile) ==
  [ p \in DOMAIN old |-> IF ~ Brings(i, d, tile, p) THEN old[p]
                         ELSE [ w |-> Combine(old[p].w, WordAt(i, ImgCell(i, d, tile, p))), src |-> old[p].src \union {i} ] ]

Process(i, d) ==
  LET wr == Writes(i, d)
      new == [ tile \in DOMAIN cube \union wr |->
                 IF tile \notin wr THEN cube[tile]
                 ELSE Merge(IF tile \in DOMAIN cube THEN cube[tile] ELSE EmptyTile, i, d, tile) ]
  IN /\ cube' = new
     /\ hist' = Append(hist, [ img |-> i, d |-> d, wrote |-> wr, fresh |-> wr \ DOMAIN cube, rejected |-> FrameRejected(i), cube |-> new ])
     /\ UNCHANGED sc

RECURSIVE Mask(_)
Mask(s) == IF s = {} THEN 0 ELSE LET x == CHOOSE y \in s : TRUE IN Pow2(x - 1) + Mask(s \ {x})
ShowTile(tile, px) == [ x |-> tile[1], y |-> tile[2],
                        w |-> [ r \in 1..S.ty |-> [ c \in 1..S.tx |-> px[<< r, c >>].w ] ],
                        src |-> [ r \in 1..S.ty |-> [ c \in 1..S.tx |-> Mask(px[<< r, c >>].src) ] ] ]
Show(h) == [ img |-> h.img, dx |-> h.d[1], dy |-> h.d[2], rejected |-> h.rejected, nwrote |-> Cardinality(h.wrote), wrote |-> h.wrote, fresh |-> h.fresh,
             tiles |-> LET s == SetToSeq(DOMAIN h.cube) IN [ k \in 1..Len(s) |-> ShowTile(s[k], h.cube[s[k]]) ] ]

Init == sc \in 1..Len(Scenarios) /\ cube = << >> /\ hist = << >>
Next == /\ Len(hist) < S.len
        /\ \E i \in 1..Len(S.imgs) : \E k \in 1..Len(S.pos) :
             /\ S.once => \A h \in 1..Len(hist) : hist[h].img # i
             /\ Img(i).pre => hist = << >>
             /\ Process(i, S.pos[k])
        /\ (Len(hist') = S.len) => Emit([ id |-> S.id, steps |-> [ h \in 1..S.len |-> Show(hist'[h]) ] ])

---------------------------------------------------------------------
\* what the property asks of every reachable cube
Latest == hist[Len(hist)]
\* every valid pixel of the image is in exactly one tile, at the position given by the grid
Partition == hist # << >> => LET i == Latest.img d == Latest.d IN
   \A rc \in Cells(i) : LET home == TileOf(i, d, rc) IN
      /\ ImgCell(i, d, home, InTile(i, d, rc)) = rc
      /\ (home \in Latest.wrote) => (i \in cube[home][InTile(i, d, rc)].src)
      /\ home \in Latest.wrote => ~ Latest.rejected /\ (Img(i).pre \/ Allowed(home))
\* a tile pixel is valid exactly if a contributing image is; quality and contributors agree
Contributions(t, p) == { h \in 1..Len(hist) : t \in hist[h].wrote /\ Brings(hist[h].img, hist[h].d, t, p) }
NoLoss == \A t \in DOMAIN cube : \A p \in DOMAIN cube[t] :
   /\ ValidWord(cube[t][p].w) <=> Contributions(t, p) # {}
   /\ cube[t][p].src = { hist[h].img : h \in Contributions(t, p) }
\* the order does not matter: each field is the most restrictive one of the contributions
Restrictive == \A t \in DOMAIN cube : \A p \in DOMAIN cube[t] : LET con == Contributions(t, p)
                    word(h) == WordAt(hist[h].img, ImgCell(hist[h].img, hist[h].d, t, p)) IN
   con # {} => \A f \in FieldSet : Field(cube[t][p].w, f) = MaxSet({ Field(word(h), f) : h \in con })
TilesHoldData == \A t \in DOMAIN cube : \E p \in DOMAIN cube[t] : ValidWord(cube[t][p].w)
\* valid pixels never disappear
Monotone == [][ sc' = sc => \A t \in DOMAIN cube : t \in DOMAIN cube' /\ \A p \in DOMAIN cube[t] : ValidWord(cube[t][p].w) => ValidWord(cube'[t][p].w) ]_vars
Spec == Init /\ [][Next]_vars
=====================================================================
