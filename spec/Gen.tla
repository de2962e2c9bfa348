-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Generates behaviours of the specification for replay into the code:     *)
(* scenarios = sequences of the actions of module Session (create an       *)
(* engine, fit it, run it, update parameters, observe), with data drawn    *)
(* over the regimes of the geometry and sky models (lean, side hit by the  *)
(* sun, overlap, shadows beyond the ground, dark sky, ...).                *)
(*                                                                         *)
(* Draws are an arithmetic hash of (seed, scenario, index): a seed always  *)
(* gives the same scenarios, whatever TLC's mode.                          *)
(***************************************************************************)
EXTENDS Irradiance, Json, IOUtils, SequencesExt

Env(name, dflt) == IF name \in DOMAIN IOEnv THEN IOEnv[name] ELSE dflt
Seed == atoi(Env("GENSEED", "1"))
NScen == atoi(Env("NSCEN", "10"))
Mix == Env("MIX", "P05")
OutFile == Env("OUT", "/dev/null")

\* quadratic congruential mixing: a draw for (scenario k, index i), in 0..30322
Mix1(k, i) == ((171 * (k % 30000)) + (7 * i * i) + (13 * i) + (Seed % 100000) + 17) % 30269
Mix2(u, k, i) == ((u * u) + (172 * i) + (11 * (k % 30000)) + 29 * (Seed % 10000)) % 30307
Mix3(v, i) == ((v * v) + (170 * i) + 41) % 30323
Mix4(w, i) == ((w * w) + (12345 + 91 * i)) % 30323
Draw(k, i) == Mix4(TLCEval(Mix3(TLCEval(Mix2(TLCEval(Mix1(k, i)), k, i)), i)), i)
Stream(k, n) == TLCEval([i \in 1..(n+3) |-> Draw(k, i)])
\* i-th draw of stream r: in lo..hi / one of the elements of s (a sequence)
In(r, i, lo, hi) == lo + (r[i + 3] % (hi - lo + 1))
Of(r, i, s) == s[1 + (r[i + 3] % Len(s))]
Chance(r, i, pct) == (r[i + 3] % 100) < pct

(* A layout with n rows and at most m segments per side; uses draws i..i+20 *)
\* rows must clear the ground at every tilt: h > w/2
GenLay(r, i, n, m) ==
  LET w == Of(r, i, <<500, 1000, 1500, 2000, 2500, 3200, 1000, 1500, 2000, 2500, 200, 7500>>) + In(r, i+1, 0, 99)
  IN [ axis |-> IF Chance(r, i+2, 25) THEN Of(r, i+3, <<0, 900, 1800, 2700>>) ELSE In(r, i+3, 0, 3599),
       gcr  |-> IF Chance(r, i+4, 70) THEN In(r, i+5, 200, 650) ELSE In(r, i+5, 50, 950),
       h    |-> (w \div 2) + (IF (r[i+9] \div 7) % 4 = 1 THEN In(r, i+6, 30, 250) ELSE In(r, i+6, 30, 3000)),
       w    |-> w, n |-> n,
       \* now and then, one side of one row in many segments
       cut  |-> [k \in 1..n |-> [ sd \in 1..2 |-> IF m > 1 /\ r[i + 4] % 29 = 7 /\ k = 1 + (r[i + 5] % n) /\ sd = 1 + (r[i + 6] % 2)
                                                 THEN 5 + (r[i + 7] % 6) ELSE In(r, i+5+2*k+sd, 1, m) ]] ]

(* The instant; uses draws i..i+11.  The surface azimuth is mostly square to *)
(* the axis.                                                                 *)
GenIn(r, i, lay) ==
  LET low == In(r, i+1, 750, 945)                       \* a fifth of them close to sunset
      z  == IF Chance(r, i, 80) THEN In(r, i+1, 0, 870) ELSE IF low <= 895 THEN low ELSE 890 + ((low - 896) \div 5)
      t  == IF Chance(r, i+2, 8) THEN 0
            ELSE IF Chance(r, i+2, 75) THEN In(r, i+3, 1, 650) ELSE In(r, i+3, 600, 1790)
      dn == IF Chance(r, i+4, 10) THEN 0 ELSE In(r, i+4, 1, 1000)
      dh == IF Chance(r, i+5, 6) THEN 0 ELSE In(r, i+5, 1, 500)
      \* modules that are not square to the axis
      skew == IF (r[i+11] \div 2) % 10 = 3 THEN ((r[i+11] \div 20) % 1601) - 800 ELSE 0
  IN [ z |-> z, a |-> IF Chance(r, i+6, 15) THEN (lay.axis + Of(r, i+7, <<0, 900, 1800, 2700>>)) % 3600 ELSE In(r, i+7, 0, 3599),
       t |-> t, s |-> (lay.axis + Of(r, i+8, <<900, 2700>>) + skew) % 3600,
       dni |-> IF dn = 0 /\ dh = 0 THEN 500 ELSE dn, dhi |-> dh,
       ghi |-> -1, alb |-> IF Chance(r, i+11, 12) THEN In(r, i+9, 900, 1000) ELSE In(r, i+9, 50, 900), doy |-> In(r, i+10, 1, 365) ]

GenGhi(r, i, in) == LET x == In(r, i, -150, 1100) IN [in EXCEPT !.ghi = IF x < 0 THEN 0 ELSE x]

(* Irradiance model parameters; draws i..i+10                                *)
\* reflectivities in thousandths; above 10000, in hundredthousandths
GenRho(r, i, hi) == LET c == (r[i + 3] \div 11) % 17 IN
                 IF c = 3 THEN 10000 + In(r, i, 1, 100) ELSE IF c = 4 THEN In(r, i, hi, 950) ELSE In(r, i, 5, hi)
GenMod(r, i, kind) ==
  LET leaky == Chance(r, i, 60) IN
  IF r[i + 1] % 7 = 3 THEN [ kind |-> kind, rf |-> 10, rb |-> 30, tr |-> 0, sp |-> 0, hba |-> 65, ff |-> -1, fb |-> -1,
                            vff |-> -1, vfb |-> -1, nsec |-> 300 ]     \* all at their defaults
  ELSE [ kind |-> kind, rf |-> GenRho(r, i+1, 400), rb |-> GenRho(r, i+2, 500),
    tr |-> IF leaky THEN In(r, i+3, 0, 400) ELSE 0, sp |-> IF leaky THEN In(r, i+4, 0, 300) ELSE 0,
    hba |-> Of(r, i+5, <<65, 20, 100, 300>>), ff |-> -1, fb |-> -1, vff |-> -1, vfb |-> -1, nsec |-> 30 ]
LossFn(r, i, lo) == LET d == In(r, i, lo, 1399) IN IF d <= 900 THEN d ELSE 1001 + (d % 6)
GenFaoi(r, i, mod) == LET f == LossFn(r, i, 0)  b == LossFn(r, i+1, 0) IN
                      [mod EXCEPT !.ff = f, !.fb = b, !.vff = f, !.vfb = b, !.nsec = Of(r, i+2, <<10, 30, 77, 300>>)]
Kind(r, i) == IF Chance(r, i, 70) THEN "hyb" ELSE "iso"
\* almost flat rows close together under a low sun: rows shade each other at tiny tilts
Shallow(r, i, in) == [in EXCEPT !.t = IF Chance(r, i, 50) THEN In(r, i+1, 1, 10) ELSE In(r, i+1, 1, 50), !.z = In(r, i+2, 850, 896),
                                !.a = (in.s + Of(r, i+3, <<0, 1800>>) + In(r, i+4, 0, 600) + 3300) % 3600]
Crowded(lay, r, i) == [lay EXCEPT !.gcr = In(r, i, 850, 970)]
\* number of rows: 1..4, mostly 2-3
GenN(r, i) == IF Chance(r, i, 12) THEN 1 ELSE IF Chance(r, i+1, 60) THEN In(r, i+2, 2, 3) ELSE In(r, i+2, 1, 4)

---------------------------------------------------------------------------
New(e, lay, mod) == [op |-> "new", e |-> e, lay |-> lay, mod |-> mod, fr |-> -1, fs |-> -1, rho |-> 0]
Fit(e, rows) == [op |-> "fit", e |-> e, rows |-> rows, form |-> <<"arr">>]
Full(e) == [op |-> "full", e |-> e]
Fast(e, r, s) == [op |-> "fast", e |-> e, r |-> r, s |-> s]
Obs(e, t, what) == [op |-> "obs", e |-> e, t |-> t, what |-> what]

\* an instant whose inter-row shade ends a hair away from the end of a segment (or is about to begin or to end): the best
\* of forty orientations, each with the sun where the shade would end right there but for the rounding to tenths of degrees
Sliver(r, i, lay, in) ==
  LET W == Width(lay)  D == Pitch(lay)
      flip == r[i+7] % 3 = 0
      row == 1 + (r[i+8] % lay.n)
      c == lay.cut[row][IF flip THEN 2 ELSE 1]
      s0 == (lay.axis + 900 + 1800 * (r[i+9] % 2)) % 3600
      free(z, t, dl) == (D (.) RCosD(z)) (/) ((RSinD(t) (.) (RSinD(z) (.) RCosD(dl))) (+) (RCosD(t) (.) RCosD(z)))
      cand(j) ==
        LET t == 10 + ((r[i+3] + 977 * j) % 790)
            dl == ((r[i+4] + 613 * j) % 1401) - 700
            left == TLCEval(RMul(W, RDec(c - ((r[i+6] + 7 * j) % c), c)))    \* what is to stay lit
            rt == TLCEval(RDec(t, 10))  rd == TLCEval(RDec(dl, 10))
            z == RFloor((10 (.) RAtanD((D (-) (left (.) RCosD(rt))) (/) (left (.) (RSinD(rt) (.) RCosD(rd))))) (+) RDec(1, 2))
        IN [ t |-> t, dl |-> dl, z |-> z,
             off |-> IF z < 10 \/ z > 895 THEN 1000 ELSE LET o == RAbs(free(RDec(z, 10), rt, rd) (-) left) IN IF o \prec RMul(2, E(5)) THEN 1000 ELSE o ]
      best == FoldLeft(LAMBDA a, j : LET b == TLCEval(cand(j)) IN IF b.off \prec a.off THEN b ELSE a, cand(1), [j \in 1..39 |-> j + 1])
  IN IF E(2) \prec best.off THEN in
     ELSE [in EXCEPT !.z = best.z, !.a = (s0 + best.dl + 3600) % 3600, !.t = IF flip THEN 1800 - best.t ELSE best.t,
                     !.s = IF flip THEN (s0 + 1800) % 3600 ELSE s0]
\* the same on the ground: a thin shadow (the sun almost in the plane of the modules), or the end of one a hair away from
\* where the plane of another row meets the ground
GroundSliver(r, i, lay, in) ==
  LET W == Width(lay)  D == Pitch(lay)  H == Height(lay)
      flip == r[i+7] % 3 = 0
      high == r[i+8] % 2 = 0                       \* which edge of the row casts the end of the shadow
      far == (r[i+10] \div 7) % lay.n
      jj == IF r[i+10] % 2 = 0 THEN far ELSE 0 - far
      s0 == (lay.axis + 900 + 1800 * (r[i+9] % 2)) % 3600
      \* abscissa (towards the low edge) and height of the edge
      ex(rt) == RMul((IF high THEN 0 - 1 ELSE 1), (W (/) 2) (.) RCosD(rt))
      ey(rt) == H (+) RMul((IF high THEN 1 ELSE 0 - 1), (W (/) 2) (.) RSinD(rt))
      aim(rt) == (jj (.) D) (+) ((H (.) RCosD(rt)) (/) RSinD(rt))
      cand(j) ==
        LET t == 10 + ((r[i+3] + 977 * j) % 790)
            dl == ((r[i+4] + 613 * j) % 1401) - 700
            rt == TLCEval(RDec(t, 10))  rd == TLCEval(RDec(dl, 10))
            T == TLCEval((ex(rt) (-) aim(rt)) (/) ey(rt))
            z == RFloor((10 (.) RAtanD(RAbs(T) (/) RCosD(rd))) (+) RDec(1, 2))
            back == T \prec 0
            T2 == RMul((IF back THEN 0 - 1 ELSE 1), (RSinD(RDec(z, 10)) (/) RCosD(RDec(z, 10))) (.) RCosD(rd))
        IN [ t |-> t, dl |-> IF back THEN dl + 1800 ELSE dl, z |-> z,
             off |-> IF z < 10 \/ z > 870 THEN 1000
                     ELSE LET o == RAbs((ex(rt) (-) (ey(rt) (.) T2)) (-) aim(rt)) IN IF o \prec RMul(2, E(5)) THEN 1000 ELSE o ]
      best == FoldLeft(LAMBDA a, j : LET b == TLCEval(cand(j)) IN IF b.off \prec a.off THEN b ELSE a, cand(1), [j \in 1..39 |-> j + 1])
  IN IF E(2) \prec best.off THEN in
     ELSE [in EXCEPT !.z = best.z, !.a = (s0 + best.dl + 7200) % 3600, !.t = IF flip THEN 1800 - best.t ELSE best.t,
                     !.s = IF flip THEN (s0 + 1800) % 3600 ELSE s0]
\* almost flat rows with the sun just above or just below their plane
Grazing(r, i, in) == LET t == In(r, i+3, 2, IF r[i+8] % 2 = 0 THEN 9 ELSE 40) IN
                     [in EXCEPT !.t = IF r[i+6] % 3 = 0 THEN 1800 - t ELSE t, !.z = 900 - (LET e == t + In(r, i+4, -15, 10) IN IF e < 2 THEN 2 ELSE e),
                                !.a = (in.s + 1800 * (r[i+6] % 2) + In(r, i+7, -300, 300) + 3600) % 3600]
Rows(r, i, lay, m) == [k \in 1..m |-> LET j == i + 12*(k-1)  in == GenIn(r, j, lay)  q == (r[j+5] \div 3) % 16 IN
                         IF lay.n > 1 /\ q = 5 THEN Sliver(r, j, lay, in)
                         ELSE IF q = 6 THEN GroundSliver(r, j, lay, in)
                         ELSE IF q = 7 THEN Grazing(r, j, in) ELSE in]

\* geometry only
ScenGeo(r, what) ==
  LET n == IF Chance(r, 4, 15) THEN In(r, 5, 5, 9) ELSE GenN(r, 1)
      shallow == Chance(r, 6, 20)
      lay0 == GenLay(r, 10, n, 3)
      graze == ~shallow /\ (r[9] \div 5) % 6 = 0
      lay == IF shallow THEN Crowded(lay0, r, 130) ELSE IF graze THEN [lay0 EXCEPT !.h = (lay0.w \div 2) + In(r, 8, 30, 250)] ELSE lay0
      rows0 == Rows(r, 40, lay, 4)
      rows == IF shallow THEN [k \in 1..4 |-> IF k > 1 THEN Shallow(r, 135 + 5*k, rows0[k]) ELSE rows0[k]]
              ELSE IF graze THEN [k \in 1..4 |-> IF k > 1 THEN Grazing(r, 135 + 12*k, rows0[k]) ELSE rows0[k]] ELSE rows0
      fit == Fit("a", rows)
  IN << New("a", lay, GenMod(r, 100, "iso")), IF Chance(r, 7, 25) THEN [fit EXCEPT !.form = << "direct", "arr" >>] ELSE fit >> \o [t \in 1..4 |-> Obs("a", t, what)]
\* grounds assembled by hand: shadows and cut points at whole places of -R..R, the ground from -G to G
ByHand(r, i, n, c, R) ==
  LET pt(j) == In(r, i + j, -R, R)
      s == SortSeq([ j \in 1..(2*n) |-> pt(j) ], LAMBDA a, b : a < b)
      cut == SortSeq([ j \in 1..c |-> pt(2*n + j) ], LAMBDA a, b : a < b)
      ov == n > 1 /\ Chance(r, i + 2*n + c + 1, 40)
      \* each shadow reaches into the next one, or not
      sh(j) == IF ~ov THEN << s[2*j - 1], s[2*j] >>
               ELSE << s[IF j = 1 THEN 1 ELSE 2*j - 2], s[IF j = n THEN 2*n ELSE 2*j + 1] >>
  IN [ sh |-> [ j \in 1..n |-> sh(j) ], cut |-> cut, ov |-> ov ]
ScenGround(r) ==
  LET n == Of(r, 161, << 1, 2, 2, 3, 4 >>)
      c == IF Chance(r, 162, 60) THEN n ELSE In(r, 163, 0, 3)
      small == Chance(r, 164, 50)
      G == IF small THEN 2 ELSE 7
      R == IF small THEN 3 ELSE 9
      x == [ t \in 1..6 |-> ByHand(r, 165 + 15*t, n, c, R) ]
      none == \A t \in 1..6 : ~x[t].ov
  IN << [op |-> "ground", G |-> G, x |-> x, flag |-> IF none THEN In(r, 165, 0, 1) ELSE 1, y |-> In(r, 166, 0, 3)] >>
\* the sun near the horizon, or the modules upside down, now and then
Extreme(r, i, rows) == [k \in DOMAIN rows |->
  CASE Chance(r, i + 3*k, 12) -> [rows[k] EXCEPT !.z = In(r, i+1+3*k, 845, 899)]
    [] Chance(r, i + 2 + 3*k, 8) -> [rows[k] EXCEPT !.t = IF Mix \in {"P07", "P08"} THEN Of(r, i+1+3*k, << 1799, 1798, 1750 >>) ELSE Of(r, i+1+3*k, << 1800, 1798, 1750 >>)]
    [] Chance(r, i + 20 + 3*k, 10) -> [rows[k] EXCEPT !.t = In(r, i+1+3*k, 1, 25)]
    [] OTHER -> rows[k]]
\* almost level modules, either way up
Level(r, i, rows) == [k \in DOMAIN rows |-> IF ~Chance(r, i + 2*k, 12) THEN rows[k]
                        ELSE [rows[k] EXCEPT !.t = IF Chance(r, i+1+2*k, 50) THEN In(r, i+2*k, 1, 25) ELSE In(r, i+2*k, 1770, 1798)]]
ScenSky(r) ==
  LET n == GenN(r, 1)  lay == GenLay(r, 10, n, 3)
      rows0 == Extreme(r, 130, Rows(r, 40, lay, 4))
      rows == IF Chance(r, 5, 25) THEN [k \in 1..4 |-> GenGhi(r, 110+k, rows0[k])] ELSE rows0
      mod0 == GenMod(r, 90, Kind(r, 6))
      mod == IF Chance(r, 7, 40) THEN GenFaoi(r, 102, mod0) ELSE mod0
  IN << New("a", lay, mod), Fit("a", rows) >> \o [t \in 1..4 |-> Obs("a", t, <<"base", "par">>)]
ScenFull(r, aoi, what) ==
  LET big == Mix \in {"P05", "P06", "P07"} /\ Chance(r, 8, 8)
      n == IF big THEN In(r, 9, 5, 6) ELSE GenN(r, 1)
      lay == GenLay(r, 10, n, IF big THEN 1 ELSE 2)
      rows0 == Extreme(r, 130, Rows(r, 40, lay, 3))
      rows == IF Chance(r, 5, 15) THEN [k \in 1..3 |-> GenGhi(r, 110+k, rows0[k])] ELSE rows0
      mod0 == GenMod(r, 90, Kind(r, 6))
      mod == IF Chance(r, 7, aoi) THEN GenFaoi(r, 102, mod0) ELSE mod0
  IN << New("a", lay, mod), Fit("a", rows), Full("a") >> \o [t \in 1..3 |-> Obs("a", t, what)]
ScenFast(r) ==
  LET n == GenN(r, 1)  lay == GenLay(r, 10, n, 3)
      rows0 == Level(r, 180, Rows(r, 40, lay, 3))
      rows == IF Chance(r, 5, 40) THEN [k \in 1..3 |-> GenGhi(r, 110+k, rows0[k])] ELSE rows0
      mod == GenMod(r, 90, Kind(r, 6))
      pick(k) == LET row == In(r, 120+2*k, 1, n) IN << row, In(r, 121+2*k, 1, lay.cut[row][2]) >>
      d == pick(0)
      newop == [New("a", lay, mod) EXCEPT !.fr = d[1] - 1, !.fs = IF Chance(r, 8, 50) THEN d[2] - 1 ELSE -1]
      f1 == LET p == pick(1) IN
            IF Chance(r, 9, 40) THEN Fast("a", -1, -1)
            ELSE IF newop.fs >= 0 THEN Fast("a", p[1]-1, p[2]-1)
            ELSE Fast("a", p[1]-1, IF Chance(r, 10, 50) THEN p[2]-1 ELSE -1)
      p2 == pick(2)
      f2 == Fast("a", p2[1]-1, p2[2]-1)
      obs == [t \in 1..3 |-> Obs("a", t, <<"base", "res", "fast">>)]
  IN << newop, Fit("a", rows), f1 >> \o obs \o << f2, Obs("a", 1, <<"base", "res", "fast">>) >>
     \o (IF Chance(r, 11, 50) THEN << Full("a"), Obs("a", 2, <<"base", "res", "fast">>), f1, Obs("a", 3, <<"base", "res", "fast">>) >> ELSE <<>>)


---------------------------------------------------------------------------
(* Scenarios about series, histories, several engines, forms and frames.     *)
FitAs(e, rows, form) == [op |-> "fit", e |-> e, rows |-> rows, form |-> form]
Vec(e, t) == Obs(e, t, <<"vec">>)
VecAll(e, m) == [t \in 1..m |-> Vec(e, t)]
Flatten(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
ModFor(r, i, aoi) == LET m == GenMod(r, i, Kind(r, i + 11)) IN IF Chance(r, i + 12, aoi) THEN GenFaoi(r, i + 13, m) ELSE m
ModObj(mod) == [fobj |-> 1] @@ mod

\* an instant that means nothing, or is a limit case
Odd(r, i, in) ==
  LET c == In(r, i, 1, 12) IN
  CASE c = 1 -> [in EXCEPT !.z = In(r, i+1, 901, 1790)]
    [] c = 2 -> [in EXCEPT !.z = 900]
    [] c = 3 -> [in EXCEPT !.dni = 0, !.dhi = 0]
    [] c = 4 -> [in EXCEPT !.dni = -5]
    [] c = 5 -> [in EXCEPT !.dhi = -5]
    [] c = 6 -> [in EXCEPT !.dni = -9999]
    [] c = 7 -> [in EXCEPT !.dhi = -9999]
    [] c = 8 -> [in EXCEPT !.t = 0]
    \* the sun exactly edge-on
    [] c = 9 -> [in EXCEPT !.z = 900, !.a = (in.s + Of(r, i+1, <<900, 2700>>)) % 3600]
    [] c = 10 -> [in EXCEPT !.t = 900, !.a = (in.s + Of(r, i+1, <<900, 2700>>)) % 3600]
    [] c = 11 -> [in EXCEPT !.z = In(r, i+1, 1, 880), !.t = 900 - In(r, i+1, 1, 880), !.a = (in.s + 1800) % 3600]
    [] OTHER -> [in EXCEPT !.z = In(r, i+1, 901, 1200), !.dni = 0, !.dhi = 0]
\* a series of m instants made of parts of those of x, but for the places in put, where they are x themselves
Filled(r, x, m, put) ==
  LET part(k, c) == x[1 + ((k \div c) % Len(x))]
      in(k) == [part(k, 1) EXCEPT !.t = part(k, 2).t, !.dni = IF k % 17 = 5 THEN 0 ELSE (@ + 37 * k) % 1000, !.dhi = 1 + ((@ + 53 * k) % 500), !.alb = 50 + ((@ + (91 * k)) % 850),
                                  !.z = IF k % 9 = 4 THEN 950 ELSE @, !.a = part(k, 5).a, !.doy = 1 + ((@ + 3 * k) % 365)]
  IN [ k \in 1..m |-> LET S == { j \in 1..3 : put[j] = k } IN IF S = {} THEN in(k) ELSE x[CHOOSE j \in S : TRUE] ]
\* fields the fit of other instants must not depend on
ScenTime(r) ==
  LET n == GenN(r, 1)  lay == GenLay(r, 10, n, 2)
      mod == ModFor(r, 90, 35)
      x == Rows(r, 40, lay, 4)
      o1 == Odd(r, 120, x[4])  o2 == Odd(r, 122, x[3])
      row == In(r, 124, 0, n-1)
      fast(e) == Fast(e, row, IF Chance(r, 125, 50) THEN 0 ELSE -1)
      S == << x[1], x[2], x[3] >>
      run(e, rows) == << New(e, lay, mod), Fit(e, rows), Full(e) >> \o VecAll(e, Len(rows)) \o << fast(e) >> \o VecAll(e, Len(rows))
      series == << << x[1], o1, x[2], x[1], o2, x[3] >>, << o2, x[3], x[2], x[1] >>, << x[2], o1, o1 >>,
                   << x[3], x[1] >>, << o1, x[1] >> >>
      p == In(r, 126, 1, 5)  q == In(r, 127, 1, 4)
      \* a long series, looked at in the places where the same instants were put
      m == In(r, 127, 20, 60) * Of(r, 128, << 1, 2, 5 >>)
      put == << In(r, 129, 1, 4), In(r, 130, 5, m - 1), m >>
      long == Filled(r, x, m, [ j \in 1..3 |-> put[j] ])
      far == << New("f", lay, mod), Fit("f", long), Full("f") >> \o [ j \in 1..3 |-> Vec("f", put[j]) ] \o << fast("f") >> \o [ j \in 1..3 |-> Vec("f", put[j]) ]
  IN Flatten([i \in 1..3 |-> run(<<"a", "b", "c">>[i], << S[i] >>)])
     \o run("d", series[p]) \o run("e", series[IF q >= p THEN q + 1 ELSE q])
     \o (IF Chance(r, 131, 60) THEN far ELSE <<>>)

\* a sequence of m calls on engine e, using draws i..i+4m; rows from a pool of series
\* in but for one thing
Vary(c, in, o) ==
  CASE c = 1 -> [in EXCEPT !.s = (@ + 1800) % 3600]
    [] c = 2 -> [in EXCEPT !.t = o.t]
    [] c = 3 -> [in EXCEPT !.a = o.a]
    [] c = 4 -> [in EXCEPT !.z = o.z]
    [] c = 5 -> [in EXCEPT !.dni = o.dni]
    [] c = 6 -> [in EXCEPT !.dhi = o.dhi]
    [] c = 7 -> [in EXCEPT !.alb = o.alb]
    [] OTHER -> [in EXCEPT !.doy = o.doy]
RECURSIVE Calls(_, _, _, _, _, _, _)
Calls(r, i, e, lay, pool, m, len) ==
  IF m = 0 THEN <<>>
  ELSE LET c == In(r, i, 1, 10)
           p == pool[In(r, i+1, 1, Len(pool))]
           row == In(r, i+2, 1, lay.n)
           op == IF len = 0 \/ c <= 3 THEN Fit(e, p)
                 ELSE IF c <= 6 THEN Full(e)
                 ELSE Fast(e, row - 1, IF c = 7 THEN -1 ELSE In(r, i+3, 1, lay.cut[row][2]) - 1)
           len2 == IF op.op = "fit" THEN Len(p) ELSE len
       IN << op, Vec(e, In(r, i+3, 1, len2)) >> \o Calls(r, i+4, e, lay, pool, m-1, len2)
ScenHist(r) ==
  LET n == GenN(r, 1)  lay == GenLay(r, 10, n, 2)
      mod == ModFor(r, 90, 35)
      x == Rows(r, 40, lay, 3)
      one == In(r, 200, 1, 8)
      pool == << << x[1], x[2] >>, << x[1] >>, << x[2], x[3], x[1] >>, << x[3], Odd(r, 106, x[2]) >>,
                 << Vary(one, x[1], x[3]), Vary(one, x[2], x[3]) >>, << Vary(one, x[1], x[3]) >> >>
      last == pool[In(r, 108, 1, 6)]
      closing(e) == << Fit(e, last), Full(e) >> \o VecAll(e, Len(last)) \o << Fast(e, In(r, 109, 0, n-1), -1) >> \o VecAll(e, Len(last))
  IN << New("a", lay, mod) >> \o Calls(r, 110, "a", lay, pool, 9, 0) \o closing("a")
     \o << New("b", lay, mod) >> \o closing("b")

\* every sequence of four calls out of six, twelve sequences after one another: 108 scenarios have them all.
\* In a clean engine b, each fit is followed by each run.
ScenHistAll(q, r) ==
  LET n == In(r, 1, 2, 3)  lay == GenLay(r, 10, n, 2)
      mod == ModFor(r, 90, 35)
      x == Rows(r, 40, lay, 3)
      one == In(r, 133, 1, 12)
      fits == << << x[1], x[2] >>, IF one <= 8 THEN << Vary(one, x[1], x[3]), Vary(one, x[2], x[3]) >> ELSE << x[3], x[1] >>, << x[2] >> >>
      f1 == << In(r, 130, 0, n-1), -1 >>
      f2 == LET row == In(r, 131, 1, n) IN << row - 1, In(r, 132, 1, lay.cut[row][2]) - 1 >>
      call(e, c) == IF c <= 3 THEN Fit(e, fits[c]) ELSE IF c = 4 THEN Full(e)
                    ELSE IF c = 5 THEN Fast(e, f1[1], f1[2]) ELSE Fast(e, f2[1], f2[2])
      word(v) == << 1 + (v % 6), 1 + ((v \div 6) % 6), 1 + ((v \div 36) % 6), 1 + ((v \div 216) % 6) >>
      len(w) == LET l == { m \in 1..4 : w[m] <= 3 } IN IF l = {} THEN 0 ELSE Len(fits[w[CHOOSE m \in l : \A o \in l : o <= m]])
      \* without a fit of their own, these calls are made on the data of the one before
      seq(j) == LET w == word(((q % 108) * 12 + j) % 1296) IN
                (IF len(w) = 0 THEN << call("a", In(r, 140 + j, 1, 2)) >> ELSE <<>>)
                \o [ m \in 1..4 |-> call("a", w[m]) ] \o VecAll("a", IF len(w) = 0 THEN 2 ELSE len(w))
      clean(c) == << call("b", c), Full("b") >> \o VecAll("b", Len(fits[c])) \o << call("b", c), call("b", 5) >> \o VecAll("b", Len(fits[c]))
                  \o << call("b", 6) >> \o VecAll("b", Len(fits[c]))
  IN << New("b", lay, mod) >> \o clean(1) \o clean(2) \o clean(3) \o << New("a", lay, mod), call("a", 1) >>
     \o Flatten([ j \in 1..12 |-> seq(j) ])

\* two engines sharing the caller's objects, interleaved
Run(lay, mod, rows, fr, fs, nproc, form, b) ==
  [op |-> "run", lay |-> lay, mod |-> mod, rows |-> rows, fr |-> fr, fs |-> fs, nproc |-> nproc, form |-> form, b |-> b, own |-> <<>>]
ScenTwo(r) ==
  LET n == GenN(r, 1)  lay == GenLay(r, 10, n, 2)
      lay2 == IF Chance(r, 4, 60) THEN lay ELSE GenLay(r, 130, GenN(r, 155), 2)
      mod == ModFor(r, 90, 45)
      mod2 == IF Chance(r, 5, 40) THEN mod ELSE ModFor(r, 160, 45)
      x0 == Rows(r, 40, lay, 3)
      \* sometimes the caller gives the global irradiance, of a night too
      xg == [k \in 1..3 |-> GenGhi(r, 220+k, x0[k])]
      x == CASE Chance(r, 224, 30) -> [xg EXCEPT ![3] = [@ EXCEPT !.z = In(r, 225, 901, 1400)]]
             [] Chance(r, 226, 25) -> xg
             [] Chance(r, 227, 30) -> [x0 EXCEPT ![3] = Odd(r, 228, @)]
             [] OTHER -> x0
      y == IF lay2 = lay THEN Rows(r, 180, lay, 2) ELSE Rows(r, 180, lay2, 2)
      A == Fit("a", << x[1], x[2], x[3] >>)
      \* on the same layout: the very same data objects
      B == IF lay2 = lay /\ Chance(r, 6, 60) THEN [A EXCEPT !.e = "b"] ELSE Fit("b", << y[1], y[2] >>)
      fa == Fast("a", In(r, 210, 0, lay.n - 1), -1)
      fb == Fast("b", In(r, 211, 0, lay2.n - 1), -1)
      see == << Vec("a", 1), Vec("b", 1), Vec("a", 2), Vec("b", 2) >>
      na == New("a", lay, mod)  nb == New("b", lay2, mod2)
      \* the functional interface and the sky model on their own, with the same objects
      more == IF ~Chance(r, 230, 45) THEN <<>> ELSE
              << Run(lay, ModObj(mod), A.rows, IF Chance(r, 231, 30) THEN 0 ELSE -1, -1, IF Chance(r, 232, 70) THEN 0 ELSE 2, A.form, "vec"),
                 [op |-> "sky", rows |-> SelectSeq(A.rows, LAMBDA q : q.dni >= 0 /\ q.dhi >= 0), form |-> Of(r, 233, << "arr", "frame", "series" >>)] >>
  IN CASE In(r, 212, 1, 4) = 1 -> << na, A, Full("a"), Vec("a", 1), Vec("a", 2), nb, Vec("a", 1), B, Vec("a", 1), Full("b") >> \o more \o see
                                  \o << fa >> \o see \o << fb >> \o see \o << B >> \o see
       [] In(r, 212, 1, 4) = 2 -> << na, nb, A, B >> \o see \o << Full("a") >> \o more \o see \o << Full("b") >> \o see \o << A >> \o see \o << fb >> \o see
       [] In(r, 212, 1, 4) = 3 -> << na, A, fa, Vec("a", 1), nb, B, fb >> \o see \o << Full("b") >> \o see \o << Full("a") >> \o see
       [] OTHER -> << na, nb, B, A, Full("b"), fa >> \o see \o more \o see \o << B, Full("b") >> \o see \o << Full("a"), fb >> \o see

Forms == << <<"arr">>, <<"list">>, <<"ser">>, <<"tser">>, <<"xser">>, <<"pser">>, <<"int">>, <<"ro">>, <<"dti">>, <<"alb">>,
            <<"ghi">>, <<"az">>, <<"utc">>, <<"east">>, <<"west", "ser">>, <<"aware">>, <<"alb", "xser", "dti">>, <<"ghi", "ser">>, <<"az", "list", "ghi">>, <<"ghi", "pser">>, <<"tuple">>, <<"int">>, <<"int", "list">>, <<"alb", "int">> >>
WholeDegrees(in, flat) ==
  [in EXCEPT !.z = (@ \div 10) * 10, !.a = (@ \div 10) * 10, !.s = (@ \div 10) * 10, !.t = IF flat THEN 0 ELSE (@ \div 10) * 10]
ScenForms(r) ==
  LET n == GenN(r, 1)
      whole == Chance(r, 131, 40)
      lay0 == GenLay(r, 10, n, 2)
      lay == IF whole THEN [lay0 EXCEPT !.axis = (@ \div 10) * 10] ELSE lay0
      mod == ModFor(r, 90, 40)
      x0 == Rows(r, 40, lay, 3)
      \* the same albedo at all times, sometimes the same day twice, sometimes an explicit global irradiance
      x1 == [k \in 1..3 |-> [x0[k] EXCEPT !.alb = x0[1].alb, !.doy = IF k = 3 /\ Chance(r, 107, 40) THEN x0[1].doy ELSE @]]
      x2 == IF Chance(r, 108, 30) THEN [k \in 1..3 |-> GenGhi(r, 220+k, x1[k])] ELSE x1
      \* at any time of the day
      x == IF Chance(r, 109, 60) THEN [k \in 1..3 |-> [min |-> In(r, 134 + k, 0, 1439)] @@ x2[k]] ELSE x2
      m == In(r, 110, 1, 3)
      \* sometimes in whole degrees throughout (numbers a user writes without a decimal point)
      rows == IF whole THEN [k \in 1..m |-> WholeDegrees(x[k], Chance(r, 131 + k, 30))] ELSE SubSeq(x, 1, m)
      \* numbers of sections may fall on wedge edges differently when azimuths are shifted
      pick(i) == LET f == Of(r, 111 + i, Forms) IN IF UsesAoi(mod) /\ f[1] = "az" THEN <<"ghi">> ELSE f
      forms == << <<"arr">>, IF m = 1 THEN Of(r, 120, << <<"scalar">>, <<"scalar", "ghi">>, <<"scalar", "np">>, <<"scalar", "np">> >>) ELSE pick(1), pick(2), pick(3) >>
      eng(i) == <<"a", "b", "c", "d">>[i]
      layOf(i) == IF i = 3 /\ ~UsesAoi(mod) THEN [lay EXCEPT !.axis = @ + 3600] ELSE lay
      modOf(i) == IF i = 2 THEN ModObj(mod) ELSE mod
      row == In(r, 121, 0, n-1)
      one(i) == << New(eng(i), layOf(i), modOf(i)), FitAs(eng(i), rows, forms[i]), Full(eng(i)) >> \o VecAll(eng(i), m)
                \o << Fast(eng(i), row, -1) >> \o VecAll(eng(i), m)
      \* the array alone, fitted directly
      direct == Of(r, 123, << "arr", "list", "int", "int", "ser", "xser", "pser", "az", "int", "float", "dict", "float", "dict", "ro" >>)
      alone == IF direct \in {"float", "dict"} THEN << rows[1] >> ELSE rows
      array == << New("g", lay, mod), FitAs("g", alone, << "direct", direct >>) >>
               \o [t \in 1..Len(alone) |-> Obs("g", t, <<"base", "rows", "gnd">>)]
  IN Flatten([i \in 1..4 |-> one(i)]) \o array

Turned(in, th) == [in EXCEPT !.a = (@ + th) % 3600, !.s = (@ + th) % 3600]
Reversed(lay) == [lay EXCEPT !.axis = (@ + 1800) % 3600, !.cut = [i \in 1..lay.n |-> lay.cut[lay.n + 1 - i]]]
ScenFrame(r) ==
  LET n == IF Chance(r, 9, 45) THEN 1 ELSE GenN(r, 1)
      lay0 == GenLay(r, 10, n, 3)
      \* small rows close together: the ends of the ground hardly matter
      lay == IF Chance(r, 113, 60) THEN [lay0 EXCEPT !.w = 500 + (@ % 100), !.h = 300 + (@ % 300), !.gcr = 300 + (@ % 300)] ELSE lay0
      mod == ModFor(r, 90, 25)
      x == Rows(r, 40, lay, 3)
      th == IF Chance(r, 110, 40) THEN Of(r, 111, <<900, 1800, 2700>>) ELSE In(r, 111, 1, 3599)
      row == In(r, 112, 0, n-1)
      lay2 == [lay EXCEPT !.axis = (@ + th) % 3600]
      run(e, l, rows) == << New(e, l, mod), Fit(e, rows), Full(e) >>
      fast(e) == << Fast(e, row, -1) >> \o VecAll(e, 3)
      pair(t) == [op |-> "pair", e |-> "a", f |-> "m", t |-> t]
  IN run("a", lay, x) \o VecAll("a", 3) \o run("m", Reversed(lay), x) \o << pair(1), pair(2), pair(3) >>
     \o fast("a") \o run("b", lay2, [k \in 1..3 |-> Turned(x[k], th)]) \o VecAll("b", 3) \o fast("b")
     \o << [up |-> Of(r, 114, << -3000, -400, 700, 2500, 40000 >>)] @@ New("c", lay, mod), Fit("c", x), Full("c") >> \o VecAll("c", 3) \o fast("c")

RunForms == << <<"arr">>, <<"list">>, <<"east">>, <<"aware">>, <<"ser">>, <<"dti">>, <<"alb">>, <<"ghi">>, <<"tser">>, <<"alb", "dti">>, <<"xser">>, <<"int">>, <<"alb", "int">>, <<"alb", "int">>, <<"int", "list">>, <<"pser">>, <<"tuple">> >>
ScenRun(r) ==
  LET n == GenN(r, 1)  lay == GenLay(r, 10, n, 2)
      mod == ModObj(ModFor(r, 90, 35))
      \* now and then a longer series, for one or two rows
      far == n <= 2 /\ (r[108 + 3] \div 7) % 8 = 3
      m == IF far THEN In(r, 108, 13, 36) ELSE In(r, 108, 1, 6)
      x0 == IF far THEN Filled(r, Rows(r, 140, lay, 5), m, << 1, m - 1, m >>) ELSE Rows(r, 140, lay, m)
      x1 == IF Chance(r, 109, 40) THEN [k \in 1..m |-> [x0[k] EXCEPT !.alb = x0[1].alb]] ELSE x0
      x == IF Chance(r, 107, 25) THEN [k \in 1..m |-> GenGhi(r, 220+k, x1[k])] ELSE x1
      fr == IF Chance(r, 110, 40) THEN In(r, 111, 1, n) ELSE 0
      fs == IF fr > 0 /\ Chance(r, 112, 50) THEN In(r, 113, 1, lay.cut[fr][2]) ELSE 0
      \* classes of the caller's own: of the array (1), the engine (2), view factors (3), irradiance (4)
      own == SelectSeq(<<1, 2, 3, 4>>, LAMBDA c : Chance(r, 280 + c, 40))
      go(np, form, b) == [Run(lay, mod, x, fr - 1, fs - 1, np, form, b) EXCEPT !.own = own]
      \* (-1: as many as there are processors)
      np(i) == IF Chance(r, 113+2*i, 40) THEN In(r, 114+2*i, 2, 4) ELSE Of(r, 114+2*i, << 1, 2, 3, 5, m, m+1, -1 >>)
      fm(i) == Of(r, 122+i, RunForms)
      eng == << New("a", lay, mod), Fit("a", x), IF fr = 0 THEN Full("a") ELSE Fast("a", fr - 1, fs - 1) >> \o VecAll("a", m)
      ex == IF fr = 0 /\ n >= 2 THEN << go(0, <<"arr">>, "ex"), go(np(3), fm(3), "ex") >> ELSE <<>>
  IN eng \o << go(0, fm(4), "vec"), go(np(1), fm(1), "vec"), go(np(2), fm(2), "vec") >> \o ex

\* all numbers of timesteps up to 8 and processes up to 12, with workers that take different times: 96 scenarios
ScenSplit(q, r) ==
  LET m == 1 + (q % 8)  np == 1 + ((q \div 8) % 12)
      n == In(r, 1, 1, 2)  lay == GenLay(r, 10, n, 1)
      mod == ModFor(r, 90, 0)
      x0 == Rows(r, 140, lay, m)
      x == IF Chance(r, 2, 50) THEN [k \in 1..m |-> GenGhi(r, 260+k, x0[k])] ELSE x0
      fr == In(r, 3, 0, n)
      go(p, d) == [d |-> d] @@ Run(lay, mod, x, fr - 1, -1, p, <<"arr">>, "vec")
  IN << go(0, <<>>), go(np, [k \in 1..m |-> In(r, 4 + k, 0, 4)]) >>

\* a loss function at angles in some form
Loss(r, i) ==
  [op |-> "loss", c |-> IF Chance(r, i, 70) THEN 1001 + In(r, i+1, 0, 5) ELSE LossFn(r, i+1, 0),
   a |-> [j \in 1..In(r, i+2, 1, 9) |-> Of(r, i+3+2*j, << 0, 9000, 18000, 9000 + In(r, i+2+2*j, -20, 20) >>
                                             \o [k \in 1..6 |-> In(r, i+2+2*j, 0, 18000)])],
   form |-> Of(r, i+3, << "array", "list", "number", "series" >>)]
ScenRho(r) ==
  LET n == In(r, 1, 1, 2)  lay == GenLay(r, 10, n, 1)
      m0 == GenMod(r, 90, Kind(r, 6))
      opt(i, v) == IF Chance(r, i, 50) THEN v ELSE -1
      mod == [m0 EXCEPT !.rf = opt(103, @), !.rb = opt(104, @),
                        !.ff = opt(105, LossFn(r, 109, 1)), !.fb = opt(106, LossFn(r, 110, 1)),
                        !.vff = opt(107, LossFn(r, 111, 1)), !.vfb = opt(108, LossFn(r, 112, 1)),
                        !.nsec = Of(r, 113, <<10, 30, 77, 300>>)]
      x == Rows(r, 40, lay, 3)
      new == [New("a", lay, IF Chance(r, 114, 30) THEN ModObj(mod) ELSE mod) EXCEPT !.rho = 1, !.fr = IF Chance(r, 115, 50) THEN 0 ELSE -1]
      see(t) == Obs("a", t, <<"base", "par", "res">>)
  IN << new, Fit("a", << x[1], x[2] >>), Obs("a", 1, <<"base", "par">>), Full("a"), see(1), see(2), Fit("a", << x[3] >>), Full("a"), see(1) >> \o << Loss(r, 140), Loss(r, 170) >>

\* setting parameters on parts, averages, snapshots
NewWith(e, lay, mod, pn) == [pn |-> pn] @@ New(e, lay, mod)
Upd(e, tg, nm, v, st) == [op |-> "upd", e |-> e, tg |-> tg, name |-> nm, v |-> v, st |-> st]
GenTg(r, i, lay) ==
  LET row == In(r, i, 1, lay.n)  sd == In(r, i+1, 1, 2)  j == In(r, i+2, 1, lay.cut[row][sd])  sh == In(r, i+3, 0, 1)
      c == In(r, i+4, 1, 14)  el == In(r, i+2, 1, lay.n + 1 - sh) IN
  CASE c \in {1, 2} -> <<"col", row, sd, j, sh>>
    [] c \in {3, 4} -> <<"seg", row, sd, j, 0>>
    [] c \in {5, 6} -> <<"side", row, sd, 0, 0>>
    [] c = 7 -> <<"row", row, 0, 0, 0>>
    [] c = 8 -> <<"surf", row, sd, j, sh>>
    [] c = 9 -> << IF sh = 1 THEN "gs" ELSE "gi", el, In(r, i+1, 1, lay.n + 1), 0, sh>>
    [] c = 10 -> <<"gcol", 0, 0, 0, sh>>
    [] c = 11 -> <<"gill", 0, 0, 0, 0>>
    [] c = 12 -> <<"gsh", 0, 0, 0, 1>>
    [] c = 13 -> <<"gnd", 0, 0, 0, 0>>
    [] OTHER -> <<"all", 0, 0, 0, 0>>
GenUpd(r, i, lay) == Upd("a", GenTg(r, i, lay), IF Chance(r, i+5, 70) THEN "u1" ELSE "u2", In(r, i+6, -500, 900), IF Chance(r, i+7, 50) THEN 0 ELSE In(r, i+7, -90, 90))
Spread(r, i, lay, nm) == Upd("a", <<"all", 0, 0, 0, 0>>, nm, In(r, i, -500, 900), In(r, i+1, -90, 90))
Hand(r, i) ==
  [op |-> "hand", segs |-> [ j \in 1..In(r, i, 1, 4) |-> [ sh \in {1, 2} |->
     [ q \in 1..(In(r, i + 3*j + sh, 0, 3)) |->
       << [ t \in 1..2 |-> IF Chance(r, i + 20*j + 5*sh + q + t, 25) THEN 0 ELSE In(r, i + 19*j + 7*sh + 2*q + t, 1, 300) ],
          [ t \in 1..2 |-> In(r, i + 17*j + 5*sh + 3*q + t, -300, 900) ] >> ] ] ] ]
GenParts(r, obs) ==
  LET many == Mix = "P17" /\ Chance(r, 4, 12)
      n == IF many THEN In(r, 5, 7, 12) ELSE GenN(r, 1)
      lay == GenLay(r, 10, n, IF many THEN 1 ELSE 3)
      mod == GenMod(r, 90, Kind(r, 6))
      shallow == Chance(r, 7, 40)
      rows0 == Rows(r, 40, lay, 3)
      rows == IF shallow THEN [k \in 1..3 |-> Shallow(r, 135 + 5*k, rows0[k])] ELSE rows0
      pn == IF Chance(r, 8, 70) THEN <<"u1", "u2">> ELSE IF Chance(r, 8, 50) THEN <<"u1", "u2", "rho", "qinc">> ELSE <<>>
      \* an array without an engine carries what it is given, and nothing else
      alone == Mix = "P17" /\ Chance(r, 9, 30)
      place(x) == IF alone THEN FitAs("a", x, << "direct", "arr" >>) ELSE Fit("a", x)
      fit2 == place(<< rows[3], rows[1] >>)
      u(i) == GenUpd(r, 160 + 8*i, lay)
      lay2 == IF shallow THEN Crowded(lay, r, 130) ELSE lay
  IN << NewWith("a", lay2, mod, pn), place(rows), Spread(r, 110, lay, "u1") >>
     \o (IF Chance(r, 112, 60) THEN << Spread(r, 113, lay, "u2") >> ELSE <<>>)
     \o << u(0), u(1), u(2), Obs("a", 1, obs), u(3), Obs("a", 2, obs) >>
     \o (IF alone THEN << u(9) >> ELSE << Full("a") >>) \o << Obs("a", 3, obs) >>
     \o (IF Chance(r, 115, 50) THEN << u(4), u(5), Obs("a", 2, obs) >> ELSE <<>>)
     \o << fit2, u(6), Obs("a", 1, obs), u(7), u(8), Obs("a", 2, obs) >>

\* the same numbers everywhere
ScenIndex(r) ==
  LET big == Chance(r, 2, 15)
      n == IF big THEN In(r, 1, 4, 6) ELSE GenN(r, 1)
      lay == GenLay(r, 10, n, IF big THEN 1 ELSE 3)
      mod == ModFor(r, 90, 25)
      shallow == Chance(r, 7, 40)
      lay1 == IF shallow THEN Crowded(lay, r, 130) ELSE lay
      x0 == Rows(r, 40, lay, 4)
      x == IF shallow THEN [k \in 1..4 |-> Shallow(r, 135 + 5*k, x0[k])] ELSE x0
      o == Odd(r, 170, x[4])
      all == <<"base", "link">>
      full == <<"base", "link", "rawF", "res">>
  IN << New("a", lay1, mod), Fit("a", << x[1], x[2] >>), Obs("a", 1, all), Obs("a", 2, all), Full("a"), Obs("a", 1, full),
        New("b", lay1, mod), Fit("b", << x[3] >>), Full("b"), Obs("b", 1, full),
        Fast("a", In(r, 171, 0, n-1), -1), Obs("a", 2, full),
        Fit("a", << o, x[4] >>), Obs("a", 1, <<"base", "link">>), Full("a"), Obs("a", 2, full) >>

\* drawings, with all options, before and after runs and refits
ScenDraw(r) ==
  LET many == Chance(r, 4, 8)
      n == IF many THEN In(r, 5, 5, 8) ELSE GenN(r, 1)
      lay0 == GenLay(r, 10, n, IF many THEN 1 ELSE 3)
      shallow == Chance(r, 6, 30)
      lay == IF shallow THEN Crowded(lay0, r, 130) ELSE lay0
      x0 == Rows(r, 40, lay, 4)
      x == IF shallow THEN [k \in 1..4 |-> Shallow(r, 135 + 5*k, x0[k])] ELSE x0
      draw(t, i) == Obs("a", t, <<"base", "draw">>) @@
                    [how |-> << IF Chance(r, i, 60) THEN 1 ELSE 0, IF Chance(r, i+1, 60) THEN 1 ELSE 0, IF Chance(r, i+2, 60) THEN 1 ELSE 0 >>,
                     col |-> In(r, i+3, 0, 1)]
  IN << New("a", lay, GenMod(r, 100, "iso")), Fit("a", << x[1], x[2] >>), draw(1, 160), draw(2, 165), draw(1, 170) >>
     \o (IF Chance(r, 8, 40) THEN << Full("a"), draw(2, 175) >> ELSE <<>>)
     \o << Fit("a", << x[3], x[2], x[4] >>), draw(1, 180), draw(3, 185) >>

---------------------------------------------------------------------------
\* static geometry under shadows, cuts and merges
Kinds == << "side", "row", "side", "gnd", "snap" >>
GeomOf(kind, by, ang, len, x, y, n, sh, nv, axis, G, v) ==
  [op |-> "geom", e |-> "g", kind |-> kind, by |-> by, ang |-> ang, len |-> len, x |-> x, y |-> y, n |-> n, sh |-> sh, nv |-> nv,
   axis |-> axis, G |-> G, sd |-> 1, v |-> v, to |-> << "whole" >>]
GCast(sd, a, b, rev, off, v) == [op |-> "gop", e |-> "g", do |-> "cast", sd |-> sd, a |-> a, b |-> b, rev |-> rev, off |-> off, v |-> v, to |-> << "side", sd >>]
GCut(sd, x, off, v) == [op |-> "gop", e |-> "g", do |-> "cut", sd |-> sd, x |-> x, off |-> off, v |-> v, to |-> << "side", sd >>]
GMerge(sd, v) == [op |-> "gop", e |-> "g", do |-> "merge", sd |-> sd, v |-> v, to |-> << "side", sd >>]
GRefill(sd, j, a, b, way, v) == [op |-> "gop", e |-> "g", do |-> "refill", sd |-> sd, j |-> j, a |-> a, b |-> b, way |-> way, v |-> v, to |-> << "side", sd >>]
GReset(sd, j, sh, v) == [op |-> "gop", e |-> "g", do |-> "reset", sd |-> sd, j |-> j, sh |-> sh, v |-> v, to |-> << "side", sd >>]
ScenStatic(r) ==
  LET G == 24
      kind == Of(r, 1, Kinds)
      two == kind \in {"row", "snap"}
      seg(i) == IF kind = "gnd" THEN 1 ELSE Of(r, i, << 1, 2, 3, 4, 6, 1, 2 >>)
      n == IF two THEN << seg(2), seg(3) >> ELSE << seg(2) >>
      ang == CASE kind = "gnd" -> 0
               [] kind = "snap" -> In(r, 4, -900, 900)
               [] kind = "row" -> IF Chance(r, 5, 25) THEN Of(r, 4, << 0, 900, -900, 1500, 1800 >>) ELSE In(r, 4, -1790, 1790)
               [] OTHER -> IF Chance(r, 5, 35) THEN Of(r, 4, << 0, 900, -900, 1800, 450, -450 >>) ELSE In(r, 4, -1800, 1800)
      len == IF kind = "gnd" THEN Of(r, 6, << 200000, 1000, 50000 >>) ELSE In(r, 6, 500, 7000)
      x == IF kind = "snap" THEN 0 ELSE IF Chance(r, 7, 30) THEN 0 ELSE In(r, 7, -90000, 90000)
      y == IF kind = "gnd" THEN Of(r, 8, << 0, 0, 1500 >>) ELSE (len \div 2) + In(r, 8, 1, 3000)
      new == GeomOf(kind, IF kind \in {"side", "row"} THEN In(r, 14, 0, 1) ELSE 0, ang, len, x, y, n, IF kind # "snap" /\ Chance(r, 9, 12) THEN 1 ELSE 0,
                    IF kind \in {"side", "row"} THEN In(r, 10, 0, 2) ELSE 0, In(r, 11, 0, 3599), G, IF Chance(r, 12, 50) THEN 7 ELSE -1)
      step(k) ==
        LET i == 20 + 12*k
            c == In(r, i, 1, 22)
            sd == IF two THEN In(r, i+1, 1, 2) ELSE 1
            m == n[sd]
            \* often on the boundaries of segments
            pt(q) == IF Chance(r, q, 25) THEN ((In(r, q+1, 0, m) * G) \div m) ELSE In(r, q+1, -3, G+3)
            a0 == pt(i+2)  b0 == pt(i+4)
            a == IF a0 < b0 THEN a0 ELSE b0
            b == IF a0 < b0 THEN b0 ELSE IF a0 = b0 THEN a0 + 1 ELSE a0
            v == IF Chance(r, i+8, 40) THEN 10 + k ELSE -1
            off == IF Chance(r, i+9, 6) THEN Of(r, i+10, << 20, -20, 400, -400 >>) ELSE 0
            sd2 == IF two THEN In(r, i+11, 1, 2) ELSE 1
            to == CASE r[i+8] % 5 = 0 -> << "whole" >>
                    [] r[i+8] % 5 = 1 -> << "seg", sd2, 1 + (r[i+7] % n[sd2]) >>
                    [] r[i+8] % 5 = 2 -> << "col", sd2, 1 + (r[i+7] % n[sd2]), r[i+6] % 2 >>
                    [] OTHER -> << "side", sd2 >>
            op == CASE c <= 9 -> GCast(sd, a, b, In(r, i+6, 0, 1), off, v)
                    [] c <= 15 -> GCut(sd, pt(i+2), off, v)
                    [] c <= 18 -> GMerge(sd, v)
                    [] c <= 20 -> GReset(sd, In(r, i+6, 1, m), In(r, i+7, 0, 1), v)
                    [] OTHER -> GRefill(sd, In(r, i+6, 1, m), a, b, In(r, i+7, 0, 3), v)
        IN [op EXCEPT !.to = to]
  IN << new >> \o [k \in 1..In(r, 13, 3, 12) |-> step(k)]

\* every sequence of three operations (numbered 1..Len(AllOps)) on a small side, in different places
SmallOps == LET G == 4 IN
  FlattenSeq([ a \in 1..4 |-> [ b \in 1..(5-a) |-> GCast(1, a-1, a-1+b, (a + b) % 2, 0, -1) ] ])
  \o << GCast(1, -1, 2, 0, 0, 5), GCast(1, 3, 6, 1, 0, 6), GCast(1, -2, 7, 0, 0, -1), GCast(1, 0, 4, 0, 30, 8) >>
  \o [ x \in 1..5 |-> GCut(1, x-1, 0, -1) ]
  \o << GMerge(1, 9), GReset(1, 1, 1, -1), GReset(1, 1, 0, -1), GRefill(1, 1, 1, 3, 2, 4), GRefill(1, 1, 1, 2, 3, -1) >>
SmallFrames == << << "side", 0, 2000 >>, << "side", 307, 3100 >>, << "side", -471, 1300 >>, << "side", 900, 2500 >>,
                  << "side", -900, 2500 >>, << "side", 1800, 2000 >>, << "side", 1302, 900 >>, << "gnd", 0, 200000 >> >>
ScenSmall(q) ==
  LET M == Len(SmallOps)
      o1 == SmallOps[1 + (q % M)]  o2 == SmallOps[1 + ((q \div M) % M)]  o3 == SmallOps[1 + ((q \div (M * M)) % M)]
      f == SmallFrames[1 + ((q + (q \div 7) + (q \div 61) + Seed) % Len(SmallFrames))]
      n == IF f[1] = "gnd" THEN 1 ELSE 1 + ((q + (q \div 5) + (q \div 131)) % 2)
  IN << GeomOf(f[1], IF f[1] = "side" THEN (q \div 2) % 2 ELSE 0, f[2], f[3], 1700, 2000, << n >>, 0, IF f[1] = "gnd" THEN 0 ELSE (q \div 3) % 3, 0, 4, 3), o1, o2, o3 >>

---------------------------------------------------------------------------
\* the halo and the horizon band. Coverages from -10 to 110 percent: all of them, by steps of 1/100,
\* in 48 portions that are symmetric about one half
HaloModels == << "uniform_disk", "gaussian" >>
Grid(q) == LET w == 125  a == 5000 - (w * (q + 1)) IN [ i \in 1..w |-> a + i - 1 ] \o [ i \in 1..w |-> 10000 - (a + w - i) ]
Halo(m, p) == [op |-> "halo", m |-> m, p |-> p]
Ladder(r, i, lo, hi, m) == [ j \in 1..m |-> lo + (((hi - lo) * (j - 1)) \div m) + (r[i + j] % ((hi - lo) \div m)) ]
ScenHalo(q, r) ==
  LET m == Of(r, 1, HaloModels)
      el == IF Chance(r, 2, 50) THEN In(r, 3, 1, 899) ELSE In(r, 3, 901, 1799)
      x0 == In(r, 5, -3000, 3000)  y0 == In(r, 6, 100, 3000)
      dx == In(r, 7, 1500, 9000) * (IF Chance(r, 8, 50) THEN 1 ELSE -1)
      dy == In(r, 9, -1500, 2500)
      band == Of(r, 11, << 65, 650, 200, 1000, 3000, 9000, 50, 1 >>)
  IN (IF q < 96 THEN << Halo(HaloModels[1 + (q % 2)], Grid(q \div 2)) >> ELSE <<>>)
     \o << Halo(m, Ladder(r, 20, -3000, 13000, 12)),
           Halo(Of(r, 12, << "uniform_disk", "gaussian", "disk", "", "Gaussian", "uniform" >>), Ladder(r, 33, 0, 10000, 6)),
           [op |-> "bell", mu |-> Of(r, 14, << 0, 0, 130, -250 >>), sg |-> Of(r, 15, << 100, 100, 71, 300, 10 >>), form |-> In(r, 16, 0, 1),
            x |-> Ladder(r, 53, -600, 600, 10)],
           [op |-> "band", b |-> band, form |-> In(r, 13, 0, 1), a |-> Ladder(r, 40, -500, 9100, 12) \o << 0, band, band - 1, band + 1, -1 >>] >>
     \o [ j \in 1..4 |->
           LET sf == << x0, y0, x0 + In(r, 72 + j, -900, 900), y0 + In(r, 76 + j, 1, 900) >>
               nb == << x0 + dx, y0 + dy, x0 + dx + In(r, 80 + j, -400, 400), y0 + dy + In(r, 84 + j, 1, 900) * (IF Chance(r, 88 + j, 50) THEN 1 ELSE -1) >>
               ca == Of(r, 64 + j, << 300, 50, 150, 600, 300, 10 >>)
               first == nb[2] > nb[4]
               \* the sun near the top of the neighbor, mostly
               top == RAbs(RAtanD(RMul(10, RDec(2 * (IF first THEN nb[2] ELSE nb[4]) - sf[2] - sf[4], 2 * (IF first THEN nb[1] ELSE nb[3]) - sf[1] - sf[3]) (/) 10)))
               near == RFloor(RMul(10, top)) + In(r, 68 + j, -ca, ca)
               e2 == IF near < 1 THEN 1 ELSE IF near > 899 THEN 899 ELSE near
           IN [op |-> "behind", m |-> Of(r, 60 + j, HaloModels), ca |-> ca,
               el |-> IF j = 4 THEN el ELSE IF el > 900 THEN 1800 - e2 ELSE e2, sf |-> sf, nb |-> nb,
               no |-> IF Chance(r, 92 + j, 12) THEN 1 ELSE 0, k |-> In(r, 96 + j, 0, 2) ] ]

\* the sky model alone: any orientation, any azimuth
ScenSkyAlone(r) ==
  LET lay == [axis |-> 0]
      any(i, x) == [x EXCEPT !.s = IF Chance(r, i, 80) THEN In(r, i+1, 0, 3599) ELSE @,
                             !.t = IF Chance(r, i+2, 15) THEN Of(r, i+3, << 0, 900, 1, 1799, 1800, 10, 850 >>) ELSE @]
      y(j) == LET x == any(10 + 20*j, GenIn(r, 14 + 20*j, lay)) IN
              IF Chance(r, 27 + 20*j, 12) THEN [x EXCEPT !.z = In(r, 28 + 20*j, 901, 1700)]
              ELSE IF Chance(r, 27 + 20*j, 30) THEN [x EXCEPT !.z = In(r, 28 + 20*j, 840, 899)] ELSE x
      \* the same plane, described from its other side
      turned(x) == [x EXCEPT !.t = 1800 - @, !.s = (@ + 1800) % 3600]
      rows == [j \in 1..6 |-> y(j)]
      more == IF Chance(r, 1, 50) THEN rows \o [j \in 1..3 |-> turned(rows[j])] ELSE SubSeq(rows, 1, In(r, 2, 1, 6))
  IN << [op |-> "sky", rows |-> more, form |-> Of(r, 3, << "arr", "frame", "series", "list" >>)],
        [op |-> "sky", rows |-> << rows[In(r, 4, 1, 6)] >>, form |-> "arr"] >>

\* planar geometry: all pairs of segments on five cells, each in some position; and questions of the other kinds
Ends == << <<0,1>>, <<0,2>>, <<0,3>>, <<0,4>>, <<0,5>>, <<1,2>>, <<1,3>>, <<1,4>>, <<1,5>>, <<2,3>>, <<2,4>>, <<2,5>>, <<3,4>>, <<3,5>>, <<4,5>> >>
EndsOf(i) == LET e == Ends[1 + (i % 15)] IN IF i % 30 < 15 THEN e ELSE << e[2], e[1] >>
ScenPlane(q, r) ==
  LET f(i) == << IF Chance(r, i, 25) THEN 450 * In(r, i+1, 0, 7) ELSE In(r, i+1, 0, 3599), Of(r, i+2, << 1000, 1, 10000 >>) * In(r, i+3, 1, 9),
                 In(r, i+4, -20000, 20000), In(r, i+5, -5000, 5000) >>
      big(i) == [f(i) EXCEPT ![2] = In(r, i+3, 200, 9000)]
      pt(i, n) == << In(r, i, -n, n), In(r, i+1, -n, n) >>
      seg(i, n) == LET p == pt(i, n)  d == pt(i+2, n) IN << p, << p[1] + (IF d = <<0, 0>> THEN 1 ELSE d[1]), p[2] + d[2] >> >>
      way(i) == LET d == pt(i, 2) IN IF d = <<0, 0>> THEN << 1, -1 >> ELSE d
      on(e) == << << e[1], 0 >>, << e[2], 0 >> >>
      \* directions: mostly along one line, some across, some surfaces that are not there
      base == way(150)
      dir(j) == CASE Chance(r, 160 + 4*j, 12) -> << 0, 0 >> [] Chance(r, 161 + 4*j, 12) -> way(162 + 4*j)
                  [] OTHER -> LET m == Of(r, 162 + 4*j, << 1, -1, 2, 3 >>) IN << m * base[1], m * base[2] >>
      n == In(r, 140, 1, 4)
      T == In(r, 200, 1, 4)
      tick(j) == LET s == seg(204 + 6*j, 9) IN CASE Chance(r, 203 + 6*j, 15) -> << s[1], s[1] >>
                   [] Chance(r, 203 + 6*j, 30) -> << s[1], << s[2][1], s[1][2] >> >> [] OTHER -> s
  IN [ j \in 1..6 |-> LET m == (6*q + j) % 900 IN
         [op |-> "plane", g |-> "diff", f |-> f(10*j), by |-> In(r, 6 + 10*j, 0, 1), u |-> on(EndsOf(m \div 30)), v |-> on(EndsOf(m % 30))] ]
     \o << [op |-> "plane", g |-> "diff", f |-> big(70), by |-> 0, u |-> on(EndsOf(In(r, 76, 0, 29))), v |-> seg(77, 3)] >>
     \o [ j \in 1..3 |-> LET u == seg(80 + 10*j, 3)
                              p == CASE j = 1 -> pt(86 + 10*j, 4) [] j = 2 -> u[1]
                                     [] OTHER -> << u[1][1] + 2 * (u[2][1] - u[1][1]), u[1][2] + 2 * (u[2][2] - u[1][2]) >>
                              \* a point of the line, on it or just beside it
                              v == IF j = 3 /\ Chance(r, 89 + 10*j, 50) THEN << u[1], << u[1][1] + 3 * (u[2][1] - u[1][1]), u[1][2] + 3 * (u[2][2] - u[1][2]) >> >> ELSE u
                          IN [op |-> "plane", g |-> "has", f |-> big(76 + 10*j), u |-> v, p |-> p, off |-> Of(r, 88 + 10*j, << 0, 1, 1000 >>)] ]
     \o [ j \in 1..4 |-> [op |-> "plane", g |-> "proj", f |-> big(120 + 3*j), p |-> pt(232 + 8*j, 4), d |-> way(234 + 8*j), u |-> seg(236 + 8*j, 3),
                            must |-> IF j = 4 THEN 0 ELSE 1] ]
     \o << [op |-> "plane", g |-> "same", f |-> IF Chance(r, 148, 35) THEN [big(142) EXCEPT ![2] = In(r, 149, 20, 199)] ELSE big(142), d |-> [j \in 1..n |-> dir(j)], sh |-> [j \in 1..n |-> IF Chance(r, 180, 60) THEN In(r, 181, 0, 1) ELSE In(r, 181 + j, 0, 1)],
             at |-> [j \in 1..n |-> pt(186 + 2*j, 3)]],
           [op |-> "plane", g |-> "line", f |-> << 0, 1000, 0, 0 >>, by |-> In(r, 201, 0, 1), u |-> [j \in 1..T |-> tick(j)], v |-> [j \in 1..T |-> In(r, 270 + j, 0, 99)]] >>

Scen(k) ==
  LET r == Stream(k, 300) IN
  [ sid |-> k,
    ops |-> CASE Mix = "P04" -> ScenGeo(r, <<"base", "rows", "gnd">>) \o ScenGround(r)
              [] Mix \in {"P01", "P02", "P03"} -> ScenGeo(r, <<"base", "rows", "gnd">>)
              [] Mix \in {"P05", "P06"} -> ScenFull(r, 40, <<"base", "F">>)
              [] Mix = "P07" -> ScenFull(r, 30, <<"base", "res">>)
              [] Mix = "P08" -> ScenFull(r, 85, <<"base", "res", "A">>)
              [] Mix = "P09" -> ScenSky(r)
              [] Mix = "P10" -> ScenFast(r)
              [] Mix = "P11" -> ScenRho(r)
              [] Mix = "P12" -> ScenTime(r)
              [] Mix = "P13" -> ScenHist(r)
              [] Mix = "P13all" -> ScenHistAll(k - 1, r)
              [] Mix = "P14" -> ScenRun(r)
              [] Mix = "P14all" -> ScenSplit(k - 1, r)
              [] Mix = "P15" -> ScenFrame(r)
              [] Mix = "P16" -> GenParts(r, <<"base", "snap">>)
              [] Mix = "P17" -> GenParts(r, <<"base", "agg">>) \o << Hand(r, 60), Hand(r, 130) >>
              [] Mix = "P18" -> ScenStatic(r)
              [] Mix = "P18all" -> ScenSmall(((k - 1) * 7919 + (Seed % 10000)) % (Len(SmallOps) * Len(SmallOps) * Len(SmallOps)))
              [] Mix = "P19" -> ScenIndex(r)
              [] Mix = "P20" -> ScenTwo(r)
              [] Mix = "P23" -> ScenSkyAlone(r)
              [] Mix = "P22" -> ScenHalo(k - 1, r)
              [] Mix = "P25" -> ScenPlane(k - 1, r)
              [] Mix = "P24" -> ScenDraw(r)
              [] Mix = "P21" -> ScenForms(r) ]

VARIABLES k, out
Init == k = 0 /\ out = <<>>
Next == \/ k < NScen /\ k' = k + 1 /\ out' = Append(out, Scen(k + 1))
        \/ k = NScen /\ ndJsonSerialize(OutFile, out) /\ k' = k + 1 /\ out' = <<>>
=============================================================================
