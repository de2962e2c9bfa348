---------------------------- MODULE PVGeometry ----------------------------
(***************************************************************************)
(* The 2-D scene: an ordered array of identical PV rows over flat ground,  *)
(* at one instant.  Written from the geometry (projections along the sun   *)
(* vector), not from the implementation's formulas.                        *)
(*                                                                         *)
(*  lay = [axis, gcr, h, w, n, cut]: layout.  axis in 1/10 deg, gcr in     *)
(*        1/1000, h and w in mm, n rows, cut[i] = <<front, back>>.         *)
(*  in  = [z, a, t, s, ...]: solar zenith, solar azimuth, surface tilt,    *)
(*        surface azimuth, all in 1/10 deg.                                *)
(*                                                                         *)
(* x grows to the right when looking along the rotation axis; the ground   *)
(* is y = 0 and extends over [-100, 100].  Row i (1-based) has its centre  *)
(* at x = (i-1) * w / gcr.  A point of a row is written centre + u * dir,  *)
(* u in [-w/2, w/2]; the front normal is dir turned by +90 degrees.        *)
(***************************************************************************)
EXTENDS Reals64, Integers, Sequences, FiniteSets, TLC

GroundMin == -100
GroundMax == 100
LenTol == E(8)          \* a surface shorter than this is a point
Inf == RDiv(1, 0)

Axis(lay)  == RDec(lay.axis, 10)
Width(lay) == RDec(lay.w, 1000)
Pitch(lay) == RDiv(RDec(lay.w, 1000), RDec(lay.gcr, 1000))
Height(lay) == RDec(lay.h, 1000)

Mod3600(k) == k % 3600

\* +1: rows lean to the left (front normal points to -x), -1: to the right, 0: flat
Lean(lay, in) == IF in.t = 0 THEN 0
                 ELSE IF Mod3600(in.s - lay.axis) > 1800 THEN 1 ELSE -1
Rotation(lay, in) == RMul(Lean(lay, in), RDec(in.t, 10))

\* sun direction projected on the cross-section plane
Sun2D(lay, in) ==
   << RMul(RSinD(RDec(in.z, 10)), RCosD(RDec(in.a - lay.axis - 900, 10))), RCosD(RDec(in.z, 10)) >>

\* cosine of the 3-D angle of incidence on the front side
CosAOI(in) == RAdd(RMul(RCosD(RDec(in.t,10)), RCosD(RDec(in.z,10))),
                   RMul(RMul(RSinD(RDec(in.t,10)), RSinD(RDec(in.z,10))), RCosD(RDec(in.a - in.s,10))))

Pt(c, d, u) == << c[1] (+) (u (.) d[1]), c[2] (+) (u (.) d[2]) >>
Dist(p, q) == RHyp(p[1] (-) q[1], p[2] (-) q[2])
Clip(x, lo, hi) == RMax(lo, RMin(hi, x))

---------------------------------------------------------------------------
(* Scene(lay, in): everything derived from the layout and the instant.      *)
Scene(lay, in) ==
  LET n    == lay.n
      W    == Width(lay)
      half == W (/) 2
      D    == Pitch(lay)
      lean == Lean(lay, in)
      rot  == Rotation(lay, in)
      dir  == TLCEval(<< RCosD(rot), RSinD(rot) >>)
      nrm  == TLCEval(<< RNeg(dir[2]), dir[1] >>)
      sun  == TLCEval(Sun2D(lay, in))
      facing == TLCEval((sun[1] (.) nrm[1]) (+) (sun[2] (.) nrm[2]))  \* >0: sun in front
      centre == TLCEval([i \in 1..n |-> << RMul(i-1, D), Height(lay) >>])
      b1   == TLCEval([i \in 1..n |-> Pt(centre[i], dir, RNeg(half))])
      b2   == TLCEval([i \in 1..n |-> Pt(centre[i], dir, half)])
      \* the low end is b1 when leaning left or flat, b2 when leaning right
      low  == TLCEval([i \in 1..n |-> IF lean >= 0 THEN b1[i] ELSE b2[i]])
      high == TLCEval([i \in 1..n |-> IF lean > 0 THEN b2[i] ELSE b1[i]])
      \* Sliding a row's shadow along the sun vector onto its neighbour's plane moves it by
      \* pitch * sun_y / (sun . normal): what remains overlapped is the shaded length.
      overlap == TLCEval(IF lean = 0 \/ n = 1 THEN 0
                 ELSE RMax(0, W (-) ((D (.) sun[2]) (/) RAbs(facing))))
      front_lit == 0 \prec facing
      \* neighbour standing between the sun and row i, on the lit side
      casterLeft == (lean > 0) = front_lit
      shadeLen(i) == IF casterLeft THEN (IF i > 1 THEN overlap ELSE 0)
                                   ELSE (IF i < n THEN overlap ELSE 0)
      shadeFront == TLCEval([i \in 1..n |-> IF front_lit THEN shadeLen(i) ELSE 0])
      shadeBack  == TLCEval([i \in 1..n |-> IF front_lit THEN 0 ELSE shadeLen(i)])
      merged == LenTol \prec overlap          \* rows shade each other <=> ground shadows overlap
      \* ground shadows: both ends of each row dropped along the sun vector
      drop(p) == p[1] (-) ((p[2] (.) sun[1]) (/) sun[2])
      shLo == TLCEval([i \in 1..n |-> RMin(drop(b1[i]), drop(b2[i]))])
      shHi0 == TLCEval([i \in 1..n |-> RMax(drop(b1[i]), drop(b2[i]))])
      shHi == [i \in 1..n |-> IF merged /\ i < n THEN shLo[i+1] ELSE shHi0[i]]
      gs   == TLCEval([i \in 1..n |-> << Clip(shLo[i], GroundMin, GroundMax), Clip(shHi[i], GroundMin, GroundMax) >>])
      gi   == TLCEval([k \in 1..(n+1) |->
                 << IF k = 1 THEN RDec(GroundMin,1) ELSE gs[k-1][2],
                    IF k = n+1 THEN RDec(GroundMax,1) ELSE gs[k][1] >>])
      \* where the extension of row i meets the ground (a flat row never does: everything is "left")
      cutx == TLCEval([i \in 1..n |-> IF lean = 0 THEN Inf
                 ELSE b1[i][1] (-) ((b1[i][2] (.) dir[1]) (/) dir[2])])
  IN [ n |-> n, W |-> W, D |-> D, lean |-> lean, rot |-> rot, dir |-> dir, nrm |-> nrm, sun |-> sun,
       facing |-> facing, centre |-> centre, b1 |-> b1, b2 |-> b2, low |-> low, high |-> high,
       overlap |-> overlap, merged |-> merged, shadeFront |-> shadeFront, shadeBack |-> shadeBack,
       gs |-> gs, gi |-> gi, cut |-> cutx ]

\* Too close to a tie (sun edge-on, sun in the front/back switch, overlap just starting) for a
\* discrete verdict to be meaningful in floating point.
Degenerate(lay, in) ==
  LET sc == Scene(lay, in) IN
    \/ RAbs(sc.facing) \prec E(4)
    \/ RAbs(CosAOI(in)) \prec E(4)
    \/ (lay.n > 1 /\ in.t # 0 /\ RAbs(sc.W (-) ((sc.D (.) sc.sun[2]) (/) RAbs(sc.facing))) \prec E(5))

---------------------------------------------------------------------------
(* Surfaces, in canonical order: ground shadows (each cut into n+1 zones by *)
(* the cut points, left to right), illuminated ground stretches (idem),     *)
(* then each row: front segments (illuminated, shaded), back segments.      *)
(* id = <<kind, element/row, zone/side, segment, shaded>>                   *)
NZones(lay) == lay.n + 1
GroundIds(lay) ==
  [k \in 1..(lay.n * (lay.n+1)) |-> <<"gs", ((k-1) \div (lay.n+1)) + 1, ((k-1) % (lay.n+1)) + 1, 0, 1>>] \o
  [k \in 1..((lay.n+1) * (lay.n+1)) |-> <<"gi", ((k-1) \div (lay.n+1)) + 1, ((k-1) % (lay.n+1)) + 1, 0, 0>>]
SideIds(i, side, m) == [k \in 1..(2*m) |-> <<"pv", i, side, ((k-1) \div 2) + 1, (k-1) % 2>>]
RowIds(lay, i) == SideIds(i, 1, lay.cut[i][1]) \o SideIds(i, 2, lay.cut[i][2])
RECURSIVE RowIdsFrom(_, _)
RowIdsFrom(lay, i) == IF i > lay.n THEN <<>> ELSE RowIds(lay, i) \o RowIdsFrom(lay, i+1)
SurfaceIds(lay) == GroundIds(lay) \o RowIdsFrom(lay, 1)
NSurfaces(lay) == Len(SurfaceIds(lay))

IndexOfId(lay, id) == LET ids == SurfaceIds(lay) IN CHOOSE k \in 1..Len(ids) : ids[k] = id
IsGround(id) == id[1] # "pv"
IsShaded(id) == id[5] = 1

\* Zone z of the stretch [a,b]: between cut points z-1 and z.
ZoneOf(sc, ab, z) ==
  LET lo == IF z = 1 THEN ab[1] ELSE Clip(sc.cut[z-1], ab[1], ab[2])
      hi == IF z = sc.n + 1 THEN ab[2] ELSE Clip(sc.cut[z], ab[1], ab[2])
  IN << <<lo, 0>>, <<RMax(lo, hi), 0>> >>

\* Segment j of m on a side of row i, split at the shade limit: <<from u, to u>> measured from b1.
SegInterval(sc, m, j) == << (RDec(j-1, m) (.) sc.W) (-) (sc.W (/) 2), (RDec(j, m) (.) sc.W) (-) (sc.W (/) 2) >>
SplitSeg(sc, m, j, L, shaded) ==
  LET iv == SegInterval(sc, m, j)
      half == sc.W (/) 2
      lowIsB1 == sc.lean >= 0
      lim == IF lowIsB1 THEN L (-) half ELSE half (-) L    \* u of the shade limit
      cu  == Clip(lim, iv[1], iv[2])
  IN IF lowIsB1
     THEN (IF shaded THEN <<iv[1], cu>> ELSE <<cu, iv[2]>>)
     ELSE (IF shaded THEN <<cu, iv[2]>> ELSE <<iv[1], cu>>)

EndPoints(lay, sc, id) ==
  CASE id[1] = "gs" -> ZoneOf(sc, sc.gs[id[2]], id[3])
    [] id[1] = "gi" -> ZoneOf(sc, sc.gi[id[2]], id[3])
    [] OTHER ->
       LET i == id[2]
           m == lay.cut[i][id[3]]
           L == IF id[3] = 1 THEN sc.shadeFront[i] ELSE sc.shadeBack[i]
           uu == SplitSeg(sc, m, id[4], L, id[5] = 1)
       IN << Pt(sc.centre[i], sc.dir, uu[1]), Pt(sc.centre[i], sc.dir, uu[2]) >>

\* Surface records [id, p, q, len]; p is the end nearer b1 (rows) or the left end (ground).
Surfaces(lay, sc) ==
  LET ids == SurfaceIds(lay) IN
  TLCEval([k \in 1..Len(ids) |->
     LET pq == TLCEval(EndPoints(lay, sc, ids[k])) IN
     [ id |-> ids[k], p |-> pq[1], q |-> pq[2], len |-> Dist(pq[1], pq[2]) ]])

\* Does side `side` (1 front, 2 back) of row i look at the ground to the left of its cut point?
LooksLeft(sc, side) == (side = 1) = (sc.lean > 0)
\* Is ground zone z visible (orientation-wise) from that side of row i?
ZoneVisible(sc, i, side, z) == IF LooksLeft(sc, side) THEN z <= i ELSE z > i
=============================================================================
