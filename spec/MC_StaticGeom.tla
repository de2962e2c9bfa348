--------------------------- MODULE MC_StaticGeom ---------------------------
(* Exhaustive check of the design of StaticGeom for a small side: every     *)
(* sequence of operations up to a depth.  cast: union of the shadows so far, *)
(* with what merges put between them.                                       *)
EXTENDS StaticGeom
CONSTANTS N, G, Depth
VARIABLES s, cast, d
Init == s = NewSide(N, G, FALSE) /\ cast = {} /\ d = 0
Shadow == \E a \in (-1)..G, b \in 0..(G+1) : a < b /\ s' = Cast(s, a, b) /\ cast' = cast \cup (Cells(a, b) \cap (1..G))
Cutting == \E x \in (-1)..(G+1) : s' = CutAt(s, x) /\ UNCHANGED cast
Merging == /\ s' = MergeShade(s)
           /\ cast' = UNION { Span(cast \cap SegCells(N, G, j)) : j \in 1..N }
Renewal == \E j \in 1..N, sh \in {0, 1} :
             /\ s' = Reset(s, j, sh)
             /\ cast' = IF sh = 1 THEN cast \cup SegCells(N, G, j) ELSE cast \ SegCells(N, G, j)
Refilling == \E j \in 1..N, a \in (-1)..G, b \in 0..(G+1) :
             /\ a < b /\ s' = Refill(s, j, a, b)
             /\ cast' = (cast \ SegCells(N, G, j)) \cup (Cells(a, b) \cap SegCells(N, G, j))
Next == d < Depth /\ d' = d + 1 /\ (Shadow \/ Cutting \/ Merging \/ Renewal \/ Refilling)
Spec == Init /\ [][Next]_<< s, cast, d >>
Inv == SideOK(s) /\ s.shade = cast
\* a cut moves no shade; a shadow or a merge takes no shade away
Monotone == [][ /\ ~(Renewal \/ Refilling) => s.shade \subseteq s'.shade
                /\ (Cutting => s'.shade = s.shade) ]_<< s, cast, d >>
\* merging twice is merging once; the order of shadows does not matter
Idem == MergeShade(MergeShade(s)).shade = MergeShade(s).shade
Commute == \A a \in 0..G, b \in 0..G, p \in 0..G, q \in 0..G :
             Cast(Cast(s, a, b), p, q).shade = Cast(Cast(s, p, q), a, b).shade
=============================================================================
