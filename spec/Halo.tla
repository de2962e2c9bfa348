-------------------------------- MODULE Halo --------------------------------
(***************************************************************************)
(* P22: partial shading of the sun's halo (the circumsolar disk) and of    *)
(* the horizon band: the share, in percent, that is hidden when a neighbor *)
(* covers a share p (in percent) of the diameter, or an angle of the band. *)
(*                                                                         *)
(* Events: halo  [m: disk model, p: coverages in 1/100 percent, s: shares, *)
(*                err: the code refused the model]                         *)
(*         band  [b: angle of the band in 1/100 deg, a: covered angles in  *)
(*                1/100 deg, s: shares]                                    *)
(*         bell [mu, sg: mean and deviation, x: places in 1/100, s: density]*)
(*         behind [m, ca: angle of the halo in 1/10 deg, el: elevation of  *)
(*                the sun in the cross section in 1/10 deg, sf: the ends   *)
(*                of a surface, nb: the ends of the neighbor (mm), no:     *)
(*                there is none, s: share]                                 *)
(***************************************************************************)
EXTENDS Clauses

Pi == RDec(314159265, 100000000) (+) (RDec(358979, 100000000) (/) 1000000)
Limited(p) == Clip(p, 0, 100)
\* a disk of uniform brightness: the area of the covered segment; its chord is at 1 - 2p (in radii)
DiskShare(p) ==
  LET c == 1 (-) (Limited(p) (/) 50)
  IN RMul(100, (RAcosD(c) (/) 180) (-) ((c (.) RSqrt(RMax(0, 1 (-) (c (.) c)))) (/) Pi))
\* a disk whose brightness falls off like a normal distribution of which the diameter spans three
\* standard deviations on either side: the covered share of what the diameter spans.
\* Integrated by Simpson's rule on 2m sections.
Bell(x) == RExp(RDec(-1, 2) (.) (x (.) x))
Simpson(a, b, m) ==
  LET h == (b (-) a) (/) RMul(2, m)
      x(k) == a (+) RMul(k, h)
      w(k) == IF k = 0 \/ k = 2*m THEN 1 ELSE IF (k % 2) = 1 THEN 4 ELSE 2
  IN RMul(h, RSum([ k \in 1..(2*m+1) |-> RMul(w(k-1), Bell(x(k-1))) ])) (/) 3
BellShare(p, total) == RMul(100, Simpson(-3, (-3) (+) (RMul(6, Limited(p)) (/) 100), 40) (/) total)
\* a band of angle b, covered up to angle a
BandShare(a, b) == IF a \prec 0 THEN 0 ELSE RMin(100, RMul(100, a) (/) b)

Within(a, b, t) == RAbs(a (-) b) \prec t
Known(m) == m \in {"uniform_disk", "gaussian"}
Total == TLCEval(Simpson(-3, 3, 40))
HiddenShare(m, p, total) == IF m = "gaussian" THEN BellShare(p, total) ELSE DiskShare(p)
CHalo(ev) ==
  LET I == 1..Len(ev.s)
      p(i) == RDec(ev.p[i], 100)
      total == Total
  IN << K("P22.unknown", IF Known(ev.m) THEN 0 ELSE 1, IF Known(ev.m) = (ev.err = 0) THEN {} ELSE { ev.m }),
        K("P22.count", 1, IF ev.err = 1 \/ Len(ev.s) = Len(ev.p) THEN {} ELSE { Len(ev.s) }),
        K(IF ev.m = "gaussian" THEN "P22.gaussian" ELSE "P22.disk", Len(ev.s),
          { ev.p[i] : i \in { i \in I : ~Within(ev.s[i], HiddenShare(ev.m, p(i), total), E(5)) } }),
        K("P22.range", Len(ev.s), { ev.p[i] : i \in { i \in I : \/ ~(RNeg(E(9)) \preceq ev.s[i]) \/ ~(ev.s[i] \preceq (100 (+) E(9)))
              \/ (ev.p[i] <= 0 /\ ~Within(ev.s[i], 0, E(9))) \/ (ev.p[i] >= 10000 /\ ~Within(ev.s[i], 100, E(9))) } }),
        \* (coverages are in ascending order)
        K("P22.monotone", Len(ev.s) - 1, { ev.p[i] : i \in { i \in I \ {1} : ev.p[i-1] <= ev.p[i] /\ ~(ev.s[i-1] \preceq (ev.s[i] (+) E(9))) } }),
        K("P22.symmetric", 1, { ev.p[i] : i \in { i \in I : LET j == Len(ev.s) + 1 - i IN
              ev.p[i] + ev.p[j] = 10000 /\ ~Within(ev.s[i] (+) ev.s[j], 100, E(9)) } }) >>
\* the density of a normal distribution
CBell(ev) ==
  LET mu == RDec(ev.mu, 100)  sg == RDec(ev.sg, 100)
      root == RSqrt(RMul(2, Pi))
      at(i) == Bell((RDec(ev.x[i], 100) (-) mu) (/) sg) (/) (sg (.) root)
  IN << K("P22.density", Len(ev.x), IF Len(ev.s) # Len(ev.x) THEN { Len(ev.s) } ELSE
          { ev.x[i] : i \in { i \in 1..Len(ev.x) : ~Within(ev.s[i], at(i), E(9)) } }) >>
CBand(ev) ==
  LET b == RDec(ev.b, 100) IN
  << K("P22.band", Len(ev.a), IF Len(ev.s) # Len(ev.a) THEN { Len(ev.s) } ELSE
       { ev.a[i] : i \in { i \in 1..Len(ev.a) : ~Within(ev.s[i], BandShare(RDec(ev.a[i], 100), b), E(9)) } }) >>

\* the halo of the sun over the highest point of a neighbor, seen from the middle of a surface
CBehind(ev) ==
  LET m(x) == RDec(x, 1000)
      mid == << m(ev.sf[1] + ev.sf[3]) (/) 2, m(ev.sf[2] + ev.sf[4]) (/) 2 >>
      first == ev.nb[2] > ev.nb[4]
      top == IF first THEN << m(ev.nb[1]), m(ev.nb[2]) >> ELSE << m(ev.nb[3]), m(ev.nb[4]) >>
      obstacle == RAbs(RAtanD((top[2] (-) mid[2]) (/) (top[1] (-) mid[1])))
      sun == IF ev.el > 900 THEN RDec(1800 - ev.el, 10) ELSE RDec(ev.el, 10)
      ca == RDec(ev.ca, 10)
      p == RMul(100, obstacle (-) (sun (-) (ca (/) 2))) (/) ca
  IN << K(IF ev.no = 1 THEN "P22.alone" ELSE "P22.behind", 1,
          IF Within(ev.s, IF ev.no = 1 THEN 0 ELSE HiddenShare(ev.m, p, Total), E(5)) THEN {} ELSE { ev.m }) >>
=============================================================================
