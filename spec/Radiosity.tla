----------------------------- MODULE Radiosity -----------------------------
(***************************************************************************)
(* What the engine must report.                                            *)
(*                                                                         *)
(* Full mode: the equilibrium of reflections.  Every surface is a grey     *)
(* diffuse reflector: outgoing q0 = rho * incident, and incident =         *)
(* direct sky terms + view-factor weighted outgoing light of all others    *)
(* (the sky dome emitting its isotropic luminance).                        *)
(* Fast mode: the back of one row only, all other surfaces taken as known. *)
(* Absorption: with AOI loss functions the diffuse view factors of module  *)
(* surfaces are replaced by AOI-weighted ones.                             *)
(***************************************************************************)
EXTENDS ViewFactors, Irradiance

\* One instant of one array, everything the clauses need, computed once.
World(lay, mod, in) ==
  LET sc  == Scene(lay, in)
      sfs == Surfaces(lay, sc)
      sky == Sky(mod, in)
      X   == ExchangeMatrix(sc, sfs)
      N   == Len(sfs)
  IN [ lay |-> lay, mod |-> mod, in |-> in, sc |-> sc, sfs |-> sfs, sky |-> sky, X |-> X, N |-> N,
       inc |-> TLCEval([k \in 1..N |-> TLCEval(Incident(sc, mod, sky, sfs[k]))]),
       xsky |-> TLCEval([k \in 1..N |-> SkyExchange(sfs, X, k)]) ]

Real(w, k) == E(6) \prec w.sfs[k].len        \* comfortably longer than a point
VFac(w, i, j) == IF w.sfs[i].len \prec LenTol THEN 0 ELSE w.X[i][j] (/) w.sfs[i].len
Fsky(w, i) == IF w.sfs[i].len \prec LenTol THEN 0 ELSE w.xsky[i] (/) w.sfs[i].len
IncSum(w, i) == RSum(w.inc[i])

\* light received by i from all other surfaces when they emit q0
Received(w, i, q0) == IF w.sfs[i].len \prec LenTol THEN 0 ELSE RDot(w.X[i], q0) (/) w.sfs[i].len

---------------------------------------------------------------------------
(* AOI-weighted view factors, as sums over nsec sections of the half disc.   *)
(* A section counts for a target as soon as it overlaps the wedge under      *)
(* which the target is seen, so results are accepted within the uncertainty  *)
(* of a section boundary falling exactly on a wedge edge.                    *)
AngEps == RDec(5, 1000000)
SecVals(c, nsec) ==     \* prefix sums of the section weights; index 1 is the empty sum
  LET w == RDec(180, nsec) IN
  RPrefix([k \in 1..nsec |->
     Faoi(c, (w (.) (k-1)) (+) (w (/) 2)) (.) (RAbs(RCosD(w (.) (k-1)) (-) RCosD(w (.) k)) (/) 2)])

Ang(u, c, p) == LET vx == p[1] (-) c[1]  vy == p[2] (-) c[2]
                IN RAcosD(((u[1] (.) vx) (+) (u[2] (.) vy)) (/) RHyp(vx, vy))
\* <<min, max>> of the weight of the wedge [lo, hi] given prefix sums P
Wedge(P, nsec, a1, a2) ==
  LET w == RDec(180, nsec)
      lo == RMin(a1, a2)  hi == RMax(a1, a2)
      first(a) == LET k == RCeil(a (/) w) IN IF k < 1 THEN 1 ELSE k
      last(a)  == LET k == RCeil(a (/) w) IN IF k > nsec THEN nsec ELSE k
      sum(i, j) == IF j < i THEN RDec(0,1) ELSE P[j+1] (-) P[i]
      f1 == first(lo (-) AngEps)  f2 == first(lo (+) AngEps)
      l1 == last(hi (-) AngEps)   l2 == last(hi (+) AngEps)
  IN IF (hi (-) lo) \prec AngEps THEN << RDec(0,1), sum(f1, l2) >>
     ELSE << RMin(sum(f2, l1), sum(f1,l2)), RMax(sum(f2,l1), sum(f1, l2)) >>

\* the sky wedge seen from side sd of row i
SkyWedge(sc, i, sd) ==
  IF LooksLeft(sc, sd)
  THEN IF i = 1 THEN << <<RDec(GroundMin,1), 0>>, sc.high[1] >> ELSE << sc.high[i-1], sc.high[i] >>
  ELSE IF i = sc.n THEN << sc.high[i], <<RDec(GroundMax,1), 0>> >> ELSE << sc.high[i], sc.high[i+1] >>

\* AOI-weighted view factors of module surface k to every other surface and (last) the sky:
\* a sequence of <<min, max>>
AoiRow(w, k, P) ==
  LET s  == w.sfs[k]
      i  == s.id[2]
      sd == s.id[3]
      sc == w.sc
      c  == MidPoint(s)
      u  == IF sd = 1 THEN << RNeg(sc.dir[1]), RNeg(sc.dir[2]) >> ELSE sc.dir
      nb == Neighbour(sc, i, sd)
      left == LooksLeft(sc, sd)
      zero == << RDec(0,1), RDec(0,1) >>
      seen(g) == IF nb # 0 /\ Hidden(c, g, sc.low[nb], left) THEN sc.low[nb] ELSE g
      wedge(p, q) == Wedge(P, w.mod.nsec, Ang(u, c, p), Ang(u, c, q))
      to(t) == IF t.len \prec LenTol THEN zero
               ELSE IF IsGround(t.id)
                    THEN IF ZoneVisible(sc, i, sd, t.id[3]) THEN wedge(seen(t.p), seen(t.q)) ELSE zero
               ELSE IF t.id[3] # sd /\ t.id[2] = nb THEN wedge(t.p, t.q) ELSE zero
      sw == SkyWedge(sc, i, sd)
  IN IF s.len \prec LenTol THEN [j \in 1..(w.N+1) |-> zero]
     ELSE TLCEval([j \in 1..(w.N+1) |-> TLCEval(IF j <= w.N THEN to(w.sfs[j]) ELSE wedge(sw[1], sw[2]))])

\* Absorbed sky terms of surface k
AbsorbedSky(w, k) == RDot(w.inc[k], AbsorbedShare(w.mod, w.in, w.sfs[k]))

---------------------------------------------------------------------------
(* Fast mode, for a surface s on the back of row i.                          *)
SumX(w, k, S) == LET q == TLCEval([j \in 1..w.N |-> IF j \in S THEN w.X[k][j] ELSE 0]) IN RSum(q)
FastVF(w, k) ==
  LET s  == w.sfs[k]
      sc == w.sc
      i  == s.id[2]
      nb == Neighbour(sc, i, 2)
      left == LooksLeft(sc, 2)
      L  == s.len
      grp(T(_)) == {j \in 1..w.N : T(w.sfs[j].id)}
      shGnd(id) == id[1] = "gs"
      shRow(id) == id[1] = "pv" /\ id[3] = 1 /\ id[2] = nb /\ id[5] = 1
      anyRow(id) == id[1] = "pv" /\ id[3] = 1 /\ id[2] = nb
      each == [e \in 1..sc.n |-> SumX(w, k, {j \in 1..w.N : w.sfs[j].id[1] = "gs" /\ w.sfs[j].id[2] = e}) (/) L]
      gs == SumX(w, k, grp(shGnd)) (/) L
      \* an inner row sees the ground between its own lowest point and its neighbour's as if the
      \* ground were infinite; an edge row sees the ground of the scene
      gt == IF nb = 0
            THEN LET lo == IF left THEN RDec(GroundMin,1) ELSE Clip(sc.cut[i], GroundMin, GroundMax)
                     hi == IF left THEN Clip(sc.cut[i], GroundMin, GroundMax) ELSE RDec(GroundMax,1)
                 IN Hottel(s.p, s.q, <<lo,0>>, <<hi,0>>, <<>>, left) (/) L
            ELSE IF sc.lean = 0 THEN RDec(1, 1)
            ELSE Hottel(s.p, s.q, sc.low[nb], sc.low[i], <<>>, left) (/) L
      ps == SumX(w, k, grp(shRow)) (/) L
      pt == SumX(w, k, grp(anyRow)) (/) L
  IN [ gs |-> gs, gi |-> gt (-) gs, gt |-> gt, ps |-> ps, pi |-> pt (-) ps, pt |-> pt,
       sky |-> (1 (-) gt) (-) pt, each |-> each ]
FastTerms(w, k) ==
  LET v == TLCEval(FastVF(w, k))
      alb == Albedo(w.in)
      rf == RhoFront(w.mod)
      sk == w.sky
      rgs == v.gs (.) (alb (.) sk.totGroundShaded)
      rgi == v.gi (.) (alb (.) sk.totGroundIllum)
      rps == v.ps (.) (rf (.) sk.totFrontShaded)
      rpi == v.pi (.) (rf (.) sk.totFrontIllum)
      refl == RSum(<<rgs, rgi, rps, rpi>>)
      iso == v.sky (.) sk.lum
      term == IncSum(w, k)
  IN [ vf |-> v, rgs |-> rgs, rgi |-> rgi, rps |-> rps, rpi |-> rpi, refl |-> refl, iso |-> iso,
       term |-> term, qinc |-> RSum(<<refl, iso, term>>) ]
=============================================================================
