---------------------------- MODULE GroundZones ----------------------------
(***************************************************************************)
(* The division of the ground, on whole numbers: a ground from -G to G,    *)
(* shadows and cut points anywhere (also beyond its ends), in order from   *)
(* left to right.  x = [sh: shadows <<from, to>>, cut: cut points,         *)
(* ov: the shadows overlap].                                               *)
(* A cell c of the ground lies between the points c - 1 and c.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Lim(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
\* shadows that overlap are kept apart: each ends where the next one starts
Ends(x) == [ i \in 1..Len(x.sh) |-> << x.sh[i][1], IF x.ov /\ i < Len(x.sh) THEN x.sh[i+1][1] ELSE x.sh[i][2] >> ]
Shadows(x, G) == LET e == Ends(x) IN [ i \in 1..Len(e) |-> << Lim(e[i][1], -G, G), Lim(e[i][2], -G, G) >> ]
\* illuminated stretches: before, between and after the shadows
Lit(x, G) == LET s == Shadows(x, G)  n == Len(s) IN
  [ k \in 1..(n+1) |-> << IF k = 1 THEN -G ELSE s[k-1][2], IF k = n + 1 THEN G ELSE s[k][1] >> ]
\* zone z of a stretch: between cut points z - 1 and z
Zone(st, cut, z) ==
  LET lo == IF z = 1 THEN st[1] ELSE Lim(cut[z-1], st[1], st[2])
      hi == IF z = Len(cut) + 1 THEN st[2] ELSE Lim(cut[z], st[1], st[2])
  IN << lo, IF hi < lo THEN lo ELSE hi >>
Covered(st) == (st[1] + 1)..st[2]
Cells0(G) == (1 - G)..G
\* in the shade according to the shadows as given
InShade(x, c) == \E i \in 1..Len(x.sh) : x.sh[i][1] < c /\ c <= x.sh[i][2]

Ordered(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i+1]
WellFormed(x) ==
  /\ \A i \in 1..Len(x.sh) : x.sh[i][1] <= x.sh[i][2]
  /\ Ordered([i \in 1..Len(x.sh) |-> x.sh[i][1]]) /\ Ordered([i \in 1..Len(x.sh) |-> x.sh[i][2]])
  /\ \A i \in 1..(Len(x.sh) - 1) : IF x.ov THEN x.sh[i][2] >= x.sh[i+1][1] ELSE x.sh[i][2] <= x.sh[i+1][1]
  /\ Ordered(x.cut)
\* Every cell of the ground belongs to one surface, that is shaded as it should be, and is left of
\* exactly the cut points that are to the right of the cell
Pieces(x, G) == { <<"gs", i, z>> : i \in 1..Len(x.sh), z \in 1..(Len(x.cut)+1) }
                \cup { <<"gi", i, z>> : i \in 1..(Len(x.sh)+1), z \in 1..(Len(x.cut)+1) }
Place(x, G, p) == Zone(IF p[1] = "gs" THEN Shadows(x, G)[p[2]] ELSE Lit(x, G)[p[2]], x.cut, p[3])
Partition(x, G) ==
  \A c \in Cells0(G) :
    LET P == { p \in Pieces(x, G) : c \in Covered(Place(x, G, p)) } IN
    /\ Cardinality(P) = 1
    /\ \A p \in P : /\ (p[1] = "gs") = InShade(x, c)
                    /\ \A k \in 1..Len(x.cut) : (p[3] <= k) = (c <= x.cut[k])
=============================================================================
