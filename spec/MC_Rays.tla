------------------------------ MODULE MC_Rays ------------------------------
(***************************************************************************)
(* First principles for the geometry of the specification: light travels   *)
(* along straight lines until it meets a row or the ground.  For a grid of *)
(* layouts and instants, rays are cast                                     *)
(*   from points of every surface to the sun: a surface is called shaded   *)
(*     exactly when a row is met on the way (Shade);                       *)
(*   from points of every surface in all directions, equally spaced in     *)
(*     sine: the share of rays that meet a surface first, is the view      *)
(*     factor by strings (Exchange), and that of rays that meet nothing is *)
(*     the view factor to the sky.                                         *)
(* One scene out of Stride is looked at; K points per surface, 2 M rays.   *)
(***************************************************************************)
EXTENDS ViewFactors
CONSTANTS Stride, K, M, WithViews
VARIABLES k, ok

Cuts == << << <<1, 1>> >>, << <<2, 1>>, <<1, 3>> >>, << <<1, 1>>, <<2, 2>>, <<1, 3>> >>, << <<1, 1>>, <<1, 2>>, <<1, 1>>, <<2, 1>> >> >>
Gcrs == << 200, 400, 700, 950 >>
Heights == << 1300, 1700, 4000 >>
Tilts == << 0, 50, 200, 450, 700, 900, 1100, 1600 >>
Faces == << 900, 2700 >>
Zeniths == << 0, 200, 500, 700, 850 >>
Azimuths == << 450, 1000, 1800, 2600, 3150 >>
NGrid == 4 * 4 * 3 * 8 * 2 * 5 * 5
Dig(j, base, size) == ((j \div base) % size) + 1
LayAt(j) == LET c == Cuts[Dig(j, 1, 4)] IN
  [axis |-> 0, gcr |-> Gcrs[Dig(j, 4, 4)], h |-> Heights[Dig(j, 16, 3)], w |-> 2400, n |-> Len(c), cut |-> c]
InAt(j) == [z |-> Zeniths[Dig(j, 768, 5)], a |-> Azimuths[Dig(j, 3840, 5)], t |-> Tilts[Dig(j, 48, 8)], s |-> Faces[Dig(j, 384, 2)]]

---------------------------------------------------------------------------
(* How far from o along d (in multiples of d) row i of the scene is met: <<>> if never *)
Cross(a, b) == (a[1] (.) b[2]) (-) (a[2] (.) b[1])
MeetRow(sc, o, d, i) ==
  LET det == Cross(d, sc.dir) IN
  IF RAbs(det) \prec E(9) THEN <<>>
  ELSE LET c == << sc.centre[i][1] (-) o[1], sc.centre[i][2] (-) o[2] >>
           far == Cross(c, sc.dir) (/) det
           u == Cross(c, d) (/) det
       IN IF E(7) \prec far /\ RAbs(u) \preceq (sc.W (/) 2) THEN << far, u >> ELSE <<>>
Met(sc, o, d) == TLCEval([ i \in 1..sc.n |-> MeetRow(sc, o, d, i) ])
Blocked(sc, o, d) == \E i \in 1..sc.n : MeetRow(sc, o, d, i) # <<>>
\* what a ray meets first: <<"sky", 0, 0, 0>>, <<"ground", 0, 0, x>> or <<"row", i, side, u>>
First(sc, o, d) ==
  LET m == Met(sc, o, d)
      S == { i \in 1..sc.n : m[i] # <<>> }
      g == IF d[2] \prec 0 THEN RNeg(o[2]) (/) d[2] ELSE Inf
      near == { i \in S : \A j \in S : m[i][1] \preceq m[j][1] }
      i == CHOOSE i \in near : \A j \in near : i <= j
      side == IF ((d[1] (.) sc.nrm[1]) (+) (d[2] (.) sc.nrm[2])) \prec 0 THEN 1 ELSE 2
      x == o[1] (+) (g (.) d[1])
  IN IF S # {} /\ m[i][1] \prec g THEN << "row", i, side, m[i][2] >>
     ELSE IF RFinite(g) /\ GroundMin \preceq x /\ x \preceq GroundMax /\ ~(o[2] \preceq 0) THEN << "ground", 0, 0, x >>
     ELSE << "sky", 0, 0, 0 >>
Outward(sc, id) == IF IsGround(id) THEN << 0, 1 >> ELSE IF id[3] = 1 THEN sc.nrm ELSE << RNeg(sc.nrm[1]), RNeg(sc.nrm[2]) >>
At(s, c) == << s.p[1] (+) (c (.) (s.q[1] (-) s.p[1])), s.p[2] (+) (c (.) (s.q[2] (-) s.p[2])) >>
\* position of an end of a surface on its row
On(sc, id, p) == ((p[1] (-) sc.centre[id[2]][1]) (.) sc.dir[1]) (+) ((p[2] (-) sc.centre[id[2]][2]) (.) sc.dir[2])
Between(x, a, b) == RMin(a, b) \preceq x /\ x \preceq RMax(a, b)

Big(sfs) == { j \in 1..Len(sfs) : E(3) \prec sfs[j].len }

Shade(sc, sfs) == \A j \in Big(sfs) :
  LET s == sfs[j]  nv == Outward(sc, s.id)
      faces == 0 \prec ((nv[1] (.) sc.sun[1]) (+) (nv[2] (.) sc.sun[2]))
      dark(c) == Blocked(sc, At(s, RDec(c, 20)), sc.sun)
  IN IF IsShaded(s.id) THEN faces /\ \A c \in {1, 10, 19} : dark(c)
     ELSE faces => \A c \in {1, 10, 19} : ~dark(c)

\* what the surface s sees, ray by ray
Looks(sc, s) ==
  LET nv == Outward(sc, s.id)  tg == << nv[2], RNeg(nv[1]) >>
      ray(c, m) == LET sn == RDec(2*m - 1 - 2*M, 2*M)
                       cs == RSqrt(1 (-) (sn (.) sn))
                       d == << (cs (.) nv[1]) (+) (sn (.) tg[1]), (cs (.) nv[2]) (+) (sn (.) tg[2]) >>
                   IN First(sc, At(s, RDec(2*c - 1, 2*K)), d)
  IN TLCEval([ v \in 1..(K * 2 * M) |-> TLCEval(ray(((v - 1) % K) + 1, ((v - 1) \div K) + 1)) ])
Share(S) == RDec(Cardinality(S), K * 2 * M)
Tolerance == RDec(3, 2 * M) (+) RDec(6, 1000)
Views(sc, sfs) ==
  LET X == ExchangeMatrix(sc, sfs)
      good(j) ==
        LET s == sfs[j]  see == Looks(sc, s)  V == 1..Len(see)
            hits(t) == IF IsGround(t.id)
                       THEN { v \in V : see[v][1] = "ground" /\ Between(see[v][4], t.p[1], t.q[1]) }
                       ELSE { v \in V : see[v][1] = "row" /\ see[v][2] = t.id[2] /\ see[v][3] = t.id[3]
                                        /\ Between(see[v][4], On(sc, t.id, t.p), On(sc, t.id, t.q)) }
            sky == { v \in V : see[v][1] = "sky" }
        IN /\ \A i \in Big(sfs) : RAbs(Share(hits(sfs[i])) (-) (X[j][i] (/) s.len)) \prec Tolerance
           /\ RAbs(Share(sky) (-) (SkyExchange(sfs, X, j) (/) s.len)) \prec (Tolerance (+) Tolerance)
  IN \A j \in { j \in Big(sfs) : ~IsGround(sfs[j].id) \/ sfs[j].len \prec 30 } : good(j)

Judged(j) == LET lay == LayAt(j)  in == InAt(j) IN
  IF Degenerate(lay, in) THEN "skip"
  ELSE LET sc == Scene(lay, in)  sfs == Surfaces(lay, sc) IN
       IF ~Shade(sc, sfs) THEN "shade" ELSE IF WithViews /\ ~Views(sc, sfs) THEN "views" ELSE "good"
Init == k \in { (Stride * q + 17) % NGrid : q \in 0..((NGrid \div Stride) - 1) } /\ ok = "?"
Next == ok = "?" /\ ok' = TLCEval(Judged(k)) /\ UNCHANGED k
Spec == Init /\ [][Next]_<<k, ok>>
Inv == ok \in {"?", "good", "skip"}
=============================================================================
