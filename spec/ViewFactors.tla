---------------------------- MODULE ViewFactors ----------------------------
(***************************************************************************)
(* Diffuse view factors in the scene, with occlusion by the neighbouring   *)
(* rows: Hottel's crossed strings, each string pulled tight around the     *)
(* lowest point of the row standing in between.  MC_Hottel.tla checks this *)
(* formula against the physical definition (the integral over the emitting *)
(* surface of the visible directions).                                     *)
(***************************************************************************)
EXTENDS PVGeometry

\* row i looks across to this neighbour (0: none) on its side `side`
Neighbour(sc, i, side) == IF LooksLeft(sc, side) THEN i - 1 ELSE (IF i = sc.n THEN 0 ELSE i + 1)

\* Is the ground point g hidden from p by the row whose lowest point is o?  (left: o is to the left of p)
Hidden(p, g, o, left) ==
  LET dy == p[2] (-) o[2] IN
  IF dy \preceq E(11) THEN FALSE
  ELSE LET xh == o[1] (+) (((o[1] (-) p[1]) (.) o[2]) (/) dy)   \* the ray p->o lands here
       IN IF left THEN g[1] \prec xh ELSE xh \prec g[1]

\* length of the tight string p--g;  ob is <<>> (no row in between) or <<o>>
Str(p, g, ob, left) ==
  IF ob # <<>> /\ Hidden(p, g, ob[1], left)
  THEN Dist(p, ob[1]) (+) Dist(ob[1], g) ELSE Dist(p, g)

\* len(A) * F(A->B) for A = p1p2, B = q1q2
Hottel(p1, p2, q1, q2, ob, left) ==
  RAbs((Str(p1, q1, ob, left) (+) Str(p2, q2, ob, left))
       (-) (Str(p1, q2, ob, left) (+) Str(p2, q1, ob, left))) (/) 2

\* exchange(s, t) = len(s) * F(s->t) for surfaces s, t: symmetric by construction
ExchangeRowGround(sc, s, g) ==
  IF ~ZoneVisible(sc, s.id[2], s.id[3], g.id[3]) THEN 0
  ELSE IF s.len \prec LenTol \/ g.len \prec LenTol THEN 0
  ELSE LET nb == Neighbour(sc, s.id[2], s.id[3])
           ob == IF nb = 0 THEN <<>> ELSE << sc.low[nb] >>
       IN Hottel(s.p, s.q, g.p, g.q, ob, LooksLeft(sc, s.id[3]))
ExchangeRowRow(sc, s, t) ==
  IF /\ s.id[3] # t.id[3]
     /\ Neighbour(sc, s.id[2], s.id[3]) = t.id[2]
     /\ Neighbour(sc, t.id[2], t.id[3]) = s.id[2]
     /\ ~(s.len \prec LenTol) /\ ~(t.len \prec LenTol)
  THEN Hottel(s.p, s.q, t.p, t.q, <<>>, TRUE) ELSE 0
Exchange(sc, s, t) ==
  IF IsGround(s.id) THEN (IF IsGround(t.id) THEN 0 ELSE ExchangeRowGround(sc, t, s))
  ELSE IF IsGround(t.id) THEN ExchangeRowGround(sc, s, t)
  ELSE ExchangeRowRow(sc, s, t)

\* Matrix of exchanges (upper part computed once, mirrored)
ExchangeMatrix(sc, sfs) ==
  LET N == Len(sfs)
      up == TLCEval([i \in 1..N |-> TLCEval([j \in 1..N |->
               IF j > i THEN Exchange(sc, sfs[i], sfs[j]) ELSE 0])])
  IN TLCEval([i \in 1..N |-> TLCEval([j \in 1..N |-> IF j > i THEN up[i][j] ELSE up[j][i]])])

\* len * F(->sky): what is not intercepted by anything else
SkyExchange(sfs, X, i) ==
  IF sfs[i].len \prec LenTol THEN 0 ELSE sfs[i].len (-) RSum(X[i])
=============================================================================
