----------------------------- MODULE StaticGeom -----------------------------
(***************************************************************************)
(* Static geometry: sides (of a row, of the ground, on their own) made of  *)
(* segments, under cast shadows, cuts, and merges of shaded areas.         *)
(*                                                                         *)
(* A side is a line from 0 to G, of G unit cells (cell c lies between the  *)
(* points c - 1 and c), divided into n segments of equal length.  Its      *)
(* state:                                                                  *)
(*   shade   the shaded cells                                              *)
(*   cuts    the points at which a surface is kept divided                 *)
(*   marks   the points at which surfaces may be divided at all            *)
(*   merged  the last operation merged the shaded areas                    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Cells(a, b) == (a+1)..b
Bounds(n, G) == { (j * G) \div n : j \in 0..n }
SegCells(n, G, j) == Cells(((j-1) * G) \div n, (j * G) \div n)
NewSide(n, G, shaded) == [ n |-> n, G |-> G, shade |-> IF shaded THEN 1..G ELSE {}, cuts |-> {}, marks |-> {},
                           merged |-> FALSE ]

\* a shadow from a to b (which may lie beyond the ends)
Cast(s, a, b) ==
  LET new == (Cells(a, b) \cap (1..s.G)) \ s.shade
  IN [ s EXCEPT !.shade = @ \cup new,
                !.cuts = { x \in @ : ~(x \in new /\ x + 1 \in new) },
                !.marks = @ \cup { x \in {a, b} : x \in 0..s.G },
                !.merged = FALSE ]
\* a cut at x
CutAt(s, x) == IF x \in 1..(s.G - 1)
               THEN [ s EXCEPT !.cuts = @ \cup {x}, !.marks = @ \cup {x}, !.merged = FALSE ]
               ELSE [ s EXCEPT !.merged = FALSE ]
\* the shade of every segment becomes one stretch
Span(S) == IF S = {} THEN {} ELSE Min(S)..Max(S)
MergeShade(s) ==
  LET sh(j) == Span(s.shade \cap SegCells(s.n, s.G, j))
      all == UNION { sh(j) : j \in 1..s.n }
      inner == UNION { IF sh(j) = {} THEN {} ELSE Min(sh(j))..(Max(sh(j)) - 1) : j \in 1..s.n }
  IN [ s EXCEPT !.shade = all, !.cuts = @ \ inner, !.merged = TRUE ]
\* a segment gets a new collection
Reset(s, j, sh) ==
  LET cs == SegCells(s.n, s.G, j) IN
  [ s EXCEPT !.shade = IF sh = 1 THEN @ \cup cs ELSE @ \ cs, !.cuts = @ \ (Min(cs)..(Max(cs) - 1)), !.merged = FALSE ]
\* ... of which the cells from a to b are shaded, and the others are not
Refill(s, j, a, b) ==
  LET cs == SegCells(s.n, s.G, j) IN
  [ s EXCEPT !.shade = (@ \ cs) \cup (Cells(a, b) \cap cs), !.cuts = @ \ (Min(cs)..(Max(cs) - 1)),
             !.marks = @ \cup ({a, b} \cap ((Min(cs) - 1)..Max(cs))), !.merged = FALSE ]
Leave(s) == [ s EXCEPT !.merged = FALSE ]

\* where a value is put on parameters: <<"whole">>, <<"side", sd>>, <<"seg", sd, j>>, <<"col", sd, j, shaded>>;
\* whether it reaches the surfaces <<sd, j, shaded>>
Reaches(to, p) == CASE to[1] = "whole" -> TRUE
                    [] to[1] = "side" -> p[1] = to[2]
                    [] to[1] = "seg" -> p[1] = to[2] /\ p[2] = to[3]
                    [] to[1] = "col" -> p[1] = to[2] /\ p[2] = to[3] /\ p[3] = to[4]

SideOK(s) == /\ s.shade \subseteq 1..s.G /\ s.cuts \subseteq 1..(s.G - 1) /\ s.cuts \subseteq s.marks
             /\ s.merged => \A j \in 1..s.n : LET q == s.shade \cap SegCells(s.n, s.G, j) IN q = Span(q)
=============================================================================
