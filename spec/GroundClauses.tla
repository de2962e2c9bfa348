--------------------------- MODULE GroundClauses ---------------------------
(***************************************************************************)
(* P04 on grounds assembled by hand. Event ground [G: ground from -G to G, *)
(* which are 100 m from the middle; x: per timestep what module            *)
(* GroundZones takes; o: per timestep                                      *)
(*   gs, gi: per element and zone << from, to >>,                          *)
(*   sides: per cut point, the surfaces to the left and right <<kind,      *)
(*          element, zone>>, len: << total, shaded >> length,              *)
(*   n: numbers of non-empty surfaces (shaded, lit, all twice), and of all   *)
(*   near: per cut point, the shadows to its left and right,               *)
(*   mean: average and integral of a value (shaded: 3, illuminated: 5)     *)
(*   shown: snapshots (merged or not, cut or not): << shaded, illuminated  *)
(*          stretches << from, to >> >> ]                                  *)
(***************************************************************************)
EXTENDS Clauses, Functions
GZ == INSTANCE GroundZones

CGroundByHand(ev) ==
  LET T == 1..Len(ev.x)
      G == ev.G
      m(v) == RMul(v, RDec(100, G))                        \* metres
      at(v) == RMul(v, RDec(G, 100))
      n(t) == Len(ev.x[t].sh)
      c(t) == Len(ev.x[t].cut)
      same(o, st) == Near(o[1], m(st[1])) /\ Near(o[2], m(st[2]))
      zones == { <<t, p>> \in T \X ({"gs", "gi"} \X (1..6) \X (1..6)) :
                   p[3] <= c(t) + 1 /\ p[2] <= n(t) + (IF p[1] = "gi" THEN 1 ELSE 0) }
      seen(q) == IF q[2][1] = "gs" THEN ev.o[q[1]].gs[q[2][2]][q[2][3]] ELSE ev.o[q[1]].gi[q[2][2]][q[2][3]]
      due(q) == GZ!Place(ev.x[q[1]], G, q[2])
      empty(q) == LET d == due(q) IN d[1] = d[2]
      badZone(q) == LET d == due(q)  o == seen(q) IN
                    IF d[1] = d[2] THEN ~Near(o[1], o[2]) ELSE ~same(o, d)
      full(t) == { q[2] : q \in { q \in zones : q[1] = t /\ ~empty(q) } }
      said(lst) == { lst[k] : k \in 1..Len(lst) }
      badSide(p) == LET t == p[1]  k == p[2]  f == full(t)
                        left == { q \in f : q[3] <= k } IN
                    \/ said(ev.o[t].sides[k][1]) \cap f # left
                    \/ said(ev.o[t].sides[k][2]) \cap f # f \ left
      near == { <<t, k, lr, i>> \in T \X (1..6) \X {1, 2} \X (1..6) : k <= c(t) /\ i <= n(t) }
      badNear(q) ==
        LET s == GZ!Shadows(ev.x[q[1]], G)[q[4]]  cut == ev.x[q[1]].cut[q[2]]  seen2 == ev.o[q[1]].near[q[2]][q[3]]
            lim(v) == IF q[3] = 1 THEN GZ!Lim(v, -G, GZ!Lim(cut, -G, G)) ELSE GZ!Lim(v, GZ!Lim(cut, -G, G), G)
        IN Len(seen2) # n(q[1]) \/ ~same(seen2[q[4]], << lim(s[1]), lim(s[2]) >>)
      whole(t, kd) == Cardinality({ p \in full(t) : p[1] = kd })
      badCount(t) == LET a == whole(t, "gs")  b == whole(t, "gi") IN
        ev.o[t].n # << a, b, a + b, a + b, n(t) * (c(t) + 1), (n(t) + 1) * (c(t) + 1), (2 * n(t) + 1) * (c(t) + 1) >>
      dark(t) == { k \in GZ!Cells0(G) : GZ!InShade(ev.x[t], k) }
      cover(lst, k) == FoldLeft(LAMBDA a, st : a (+) RMax(0, RMin(at(st[2]), k) (-) RMax(at(st[1]), k - 1)), 0, lst)
      C5(a, b) == RAbs(a (-) b) \prec E(6)
      badShow(p) == LET o == ev.o[p[1]].shown[p[2]] IN
                    \E k \in GZ!Cells0(G) : LET d == IF GZ!InShade(ev.x[p[1]], k) THEN 1 ELSE 0 IN
                       ~C5(cover(o[1], k), d) \/ ~C5(cover(o[2], k), 1 - d)
  IN << K("P04.model", Len(ev.x), { t \in T : ~GZ!WellFormed(ev.x[t]) }),
        On("P04.hand_zone", zones, badZone),
        On("P04.hand_sides", { p \in T \X (1..6) : p[2] <= c(p[1]) }, badSide),
        On("P04.hand_length", T, LAMBDA t : ~Near(ev.o[t].len[1], 200) \/ ~Near(ev.o[t].len[2], m(Cardinality(dark(t))))),
        On("P04.hand_beside", near, badNear),
        On("P04.hand_points", T, badCount),
        \* shaded: 3, illuminated: 5
        On("P04.hand_mean", T, LAMBDA t : LET d == Cardinality(dark(t)) IN
              \/ ~RNear(ev.o[t].mean[2], m(3 * d + 5 * (2 * G - d)), T6)
              \/ ~RNear(ev.o[t].mean[1], RDec(3 * d + 5 * (2 * G - d), 2 * G), T6)),
        On("P04.hand_shown", { p \in T \X (1..4) : p[2] <= Len(ev.o[p[1]].shown) }, badShow) >>
=============================================================================
