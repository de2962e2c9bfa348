----------------------------- MODULE Irradiance -----------------------------
(***************************************************************************)
(* What the sky and the sun send directly to each surface (no reflection), *)
(* for the two irradiance models.                                          *)
(*                                                                         *)
(*  mod = [kind, rf, rb, tr, sp, hba, ff, fb, vff, vfb, nsec]              *)
(*    kind "iso" (isotropic sky) or "hyb" (Perez sky: isotropic dome +     *)
(*    circumsolar point + horizon band); rf/rb reflectivities of the       *)
(*    front/back sides, tr module transparency, sp module spacing ratio,   *)
(*    all in 1/1000 (rf/rb -1: derived); hba horizon band angle, 1/10 deg; *)
(*    ff/fb: front/back AOI loss function f(a) = 1 - (c/1000)((a-90)/90)^2,*)
(*    a measured from the surface plane, c = ff or fb, -1: no function;    *)
(*    vff/vfb: the same, as given to the view factor calculator.           *)
(*  in adds dni, dhi, ghi (-1: not supplied), alb (1/1000), doy.           *)
(***************************************************************************)
EXTENDS PVGeometry

Tilt(in)   == RDec(in.t, 10)
CosZ(in)   == RCosD(RDec(in.z, 10))
AOIdeg(in) == RAcosD(CosAOI(in))
Albedo(in) == RDec(in.alb, 1000)
FrontLit(in) == 0 \prec CosAOI(in)
GHI(in) == IF in.ghi >= 0 THEN RDec(in.ghi, 1) ELSE (in.dni (.) CosZ(in)) (+) in.dhi

\* fraction of the beam that still gets through a module field
Leak(mod) == LET sp == RDec(mod.sp, 1000) tr == RDec(mod.tr, 1000)
             IN sp (+) ((1 (-) sp) (.) tr)

---------------------------------------------------------------------------
(* Perez (1990) all-sites sky, on the front side normal or on the reversed  *)
(* one when the sun is behind the modules.                                  *)
PerezF == << << -80, 5880,  -620,  -600,   720, -220>>,
             << 1300, 6830, -1510,  -190,   660, -290>>,
             << 3300, 4870, -2210,   550,  -640, -260>>,
             << 5680, 1870, -2950,  1090, -1520, -140>>,
             << 8730,-3920, -3620,  2260, -4620,   10>>,
             <<11320,-12370,-4120,  2880, -8230,  560>>,
             <<10600,-16000,-3590,  2640,-11270, 1310>>,
             << 6780,-3270, -2500,  1560,-13770, 2510>> >>
PerezBins == <<1065, 1230, 1500, 1950, 2800, 4500, 6200>>

Airmass(in) == 1 (/) (CosZ(in) (+) (RDec(50572,100000) (.) RPow(RDec(607995,100000) (+) (90 (-) RDec(in.z,10)), RDec(-16364,10000))))
DayAngle(in) == RDec(360 * (in.doy - 1), 365)
Extra(in) == LET b == DayAngle(in) IN
   RDec(13661,10) (.) RSum(<< RDec(100011,100000), RDec(34221,1000000) (.) RCosD(b), RDec(128,100000) (.) RSinD(b),
                       RDec(719,1000000) (.) RCosD(2 (.) b), RDec(77,1000000) (.) RSinD(2 (.) b) >>)
Clearness(in) ==
   LET z == (RDec(in.z,10) (.) RDec(314159265,100000000)) (/) 180
       k == RDec(1041,1000) (.) RPow(z, 3)
   IN (((in.dhi (+) in.dni) (/) in.dhi) (+) k) (/) (1 (+) k)
PerezBin(in) == IF in.dhi = 0 THEN 8
                ELSE 1 + Cardinality({k \in 1..7 : RDec(PerezBins[k],1000) \preceq Clearness(in)})
NearPerezBin(in) == in.dhi # 0 /\ \E k \in 1..7 : RNear(RDec(PerezBins[k],1000), Clearness(in), E(6))
PerezCoef(in) ==
   LET c == PerezF[PerezBin(in)]
       z == (RDec(in.z,10) (.) RDec(314159265,100000000)) (/) 180
       d == (in.dhi (.) Airmass(in)) (/) Extra(in)
   IN << RMax(0, RDec(c[1],10000) (+) (RDec(c[2],10000) (.) d) (+) (RDec(c[3],10000) (.) z)),
         RDec(c[4],10000) (+) (RDec(c[5],10000) (.) d) (+) (RDec(c[6],10000) (.) z) >>

\* Components on a plane of tilt angle beta (deg) whose normal makes cos(aoi) = ca with the sun.
PerezOn(in, F, beta, ca) ==
   LET A == RMax(ca, 0)
       B == RMax(CosZ(in), RCosD(85))
       iso == in.dhi (.) (RDec(1,2) (.) ((1 (-) F[1]) (.) (1 (+) RCosD(beta))))
       cir == in.dhi (.) (F[1] (.) (A (/) B))
       hor == in.dhi (.) (F[2] (.) RSinD(beta))
       total == iso (+) cir (+) hor
       dark == total \preceq 0
   IN [ dark |-> dark,
        \* whether it is dark is decided in floating point, or makes no difference
        decided |-> in.dhi = 0 \/ ~(RAbs(total) \prec E(6)) \/ (cir (+) RAbs(hor)) \prec E(9),
        cir |-> IF dark THEN 0 ELSE cir,
        hor |-> IF dark THEN 0 ELSE hor ]
\* Brightness of the dome and of the area around the sun: the same for every plane
Horizontal(in, F) == PerezOn(in, F, 0, CosZ(in))
DomeLum(in, F) == IF Horizontal(in, F).dark THEN 0 ELSE in.dhi (.) (1 (-) F[1])
HaloLum(in, F) == IF Horizontal(in, F).dark THEN 0 ELSE in.dhi (.) F[1]
\* the sky model's own discrete cases are decided in floating point
PerezDecided(in) ==
  ~NearPerezBin(in) /\ LET F == TLCEval(PerezCoef(in)) IN PerezOn(in, F, Tilt(in), CosAOI(in)).decided /\ Horizontal(in, F).decided

(* Sky(mod, in): the direct-light budget at this instant.                    *)
(*   lum: isotropic sky luminance;  per kind of surface <<direct, circum.,   *)
(*   horizon (before band shading)>>, illuminated and shaded.                *)
Sky(mod, in) ==
  LET ca   == CosAOI(in)
      lit  == FrontLit(in)
      leak == Leak(mod)
      gdir == in.dni (.) CosZ(in)
      fdir == IF lit THEN in.dni (.) ca ELSE 0
      bdir == IF lit THEN 0 ELSE RNeg(in.dni (.) ca)
      hyb  == mod.kind = "hyb"
      F    == TLCEval(PerezCoef(in))
      pf   == TLCEval(PerezOn(in, F, Tilt(in), ca))
      lumCir == HaloLum(in, F)
      fcir == IF hyb /\ lit THEN pf.cir ELSE 0
      bcir == IF hyb /\ ~lit THEN lumCir (.) (RNeg(ca) (/) RMax(CosZ(in), RCosD(85))) ELSE 0
      gcir == IF hyb THEN lumCir ELSE 0
      hor  == IF hyb THEN RAbs(pf.hor) ELSE 0
      lum  == IF hyb THEN DomeLum(in, F) ELSE RDec(in.dhi, 1)
      poa  == RSum(<< fdir, (in.dhi (.) (1 (+) RCosD(Tilt(in)))) (/) 2,
                      (GHI(in) (.) Albedo(in) (.) (1 (-) RCosD(Tilt(in)))) (/) 2 >>)
  IN TLCEval([ lum |-> lum, leak |-> leak,
       g |-> <<gdir, gcir, 0>>, gs |-> <<gdir (.) leak, gcir (.) leak, 0>>,
       f |-> <<fdir, fcir, hor>>, fs |-> <<fdir (.) leak, fcir (.) leak, hor>>,
       b |-> <<bdir, bcir, hor>>, bs |-> <<bdir (.) leak, bcir (.) leak, hor>>,
       poa |-> poa,
       \* what the fast mode takes for granted on the surfaces it does not solve
       totGroundIllum |-> GHI(in),
       totGroundShaded |-> (in.dhi (-) gcir) (+) (gcir (.) leak) (+) (gdir (.) leak),
       totFrontIllum |-> poa,
       totFrontShaded |-> poa (-) ((fdir (+) fcir) (.) (1 (-) leak)) ])

\* Share (0..1) of the horizon band hidden from a point on the back of row i by the highest
\* point of the neighbour it faces.
HorizonHidden(sc, mod, i, pt) ==
  LET nb == IF sc.lean > 0 THEN (IF i = sc.n THEN 0 ELSE i + 1) ELSE i - 1
  IN IF nb = 0 THEN 0
     ELSE LET ang == RAbs(RAtanD((sc.high[nb][2] (-) pt[2]) (/) (sc.high[nb][1] (-) pt[1])))
          IN RMin(1, ang (/) RDec(mod.hba, 10))
MidPoint(s) == << (s.p[1] (+) s.q[1]) (/) 2, (s.p[2] (+) s.q[2]) (/) 2 >>

(* Incident(sc, mod, sky, s): <<direct, circumsolar, horizon>> on surface s.  *)
Incident(sc, mod, sky, s) ==
  IF IsGround(s.id) THEN (IF IsShaded(s.id) THEN sky.gs ELSE sky.g)
  ELSE IF s.id[3] = 1 THEN (IF IsShaded(s.id) THEN sky.fs ELSE sky.f)
  ELSE LET v == IF IsShaded(s.id) THEN sky.bs ELSE sky.b
           h == IF mod.kind = "hyb" THEN HorizonHidden(sc, mod, s.id[2], MidPoint(s)) ELSE 0
       IN << v[1], v[2], v[3] (.) (1 (-) h) >>

---------------------------------------------------------------------------
(* Reflectivity and the share of incident beam that is absorbed.             *)
\* Loss functions of the angle a (degrees, from the surface): the family 1 - (c/1000) ((a-90)/90)^2, and
\* above 1000 those of the Sandia modules: a polynomial of the angle from the normal, between 0 and 1.
SandiaB == << << <<-2438, 1000000>>, <<31030, 100000000>>, <<-12460, 1000000000>>, <<2110, 10>>, <<-136, 100>> >>,
              << <<-247145, 100000000>>, <<31462, 100000000>>, <<-12630, 1000000000>>, <<2140, 10>>, <<-137, 100>> >>,
              << <<-6990, 1000000>>, <<86200, 100000000>>, <<-34000, 1000000000>>, <<5350, 10>>, <<-299, 100>> >>,
              << <<-15400, 1000000>>, <<157200, 100000000>>, <<-55250, 1000000000>>, <<8040, 10>>, <<-4202, 1000>> >>,
              << <<-3080, 1000000>>, <<40530, 100000000>>, <<-17290, 1000000000>>, <<2997, 10>>, <<-1878, 1000>> >>,
              << <<-6498, 1000000>>, <<69080, 100000000>>, <<-26780, 1000000000>>, <<4322, 10>>, <<-2508, 1000>> >> >>
SandiaPoly(k, x) ==
  LET b == SandiaB[k]
      c(i) == RDec(b[i][1], b[i][2])
      b4 == c(4) (/) 1000000000
      b5 == c(5) (/) 1000000000
  IN 1 (+) (x (.) (c(1) (+) (x (.) (c(2) (+) (x (.) (c(3) (+) (x (.) (b4 (+) (x (.) b5)))))))))
Faoi(c, a) == IF c > 1000 THEN RMax(0, RMin(1, SandiaPoly(c - 1000, RAbs(a (-) 90))))
              ELSE 1 (-) (RDec(c,1000) (.) RPow((a (-) 90) (/) 90, 2))

\* 1 - (cosine-weighted average of f over the half disc), by the mid-point rule on nsec sections
RhoFromFaoi(c, nsec) ==
  LET w == RDec(180, nsec) IN
  1 (-) RSum([k \in 1..nsec |->
      Faoi(c, (w (.) (k-1)) (+) (w (/) 2)) (.) (RAbs(RCosD(w (.) (k-1)) (-) RCosD(w (.) k)) (/) 2)])

\* The reflectivity of the modules follows: given value, else the loss functions (both sides' are
\* needed by the view factor calculator), else the default.
UsesAoi(mod) == mod.vff >= 0 /\ mod.vfb >= 0
RhoFront(mod) == IF mod.rf > 10000 THEN RDec(mod.rf - 10000, 100000) ELSE IF mod.rf >= 0 THEN RDec(mod.rf,1000)
                 ELSE IF UsesAoi(mod) THEN RhoFromFaoi(mod.vff, mod.nsec) ELSE RDec(1,100)
RhoBack(mod)  == IF mod.rb > 10000 THEN RDec(mod.rb - 10000, 100000) ELSE IF mod.rb >= 0 THEN RDec(mod.rb,1000)
                 ELSE IF UsesAoi(mod) THEN RhoFromFaoi(mod.vfb, mod.nsec) ELSE RDec(3,100)
Rho(mod, in, s) == IF IsGround(s.id) THEN Albedo(in)
                   ELSE IF s.id[3] = 1 THEN RhoFront(mod) ELSE RhoBack(mod)

\* share of <<direct, circumsolar, horizon>> absorbed by surface s
AbsorbedShare(mod, in, s) ==
  IF IsGround(s.id) THEN LET a == 1 (-) Albedo(in) IN <<a, a, a>>
  ELSE LET c == IF s.id[3] = 1 THEN mod.ff ELSE mod.fb
           ray == RAbs(90 (-) AOIdeg(in))
           d == 1 (-) Rho(mod, in, s)
       IN IF c >= 0 THEN << Faoi(c, ray), Faoi(c, ray), Faoi(c, Tilt(in)) >> ELSE <<d, d, d>>
=============================================================================
