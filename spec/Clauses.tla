------------------------------ MODULE Clauses ------------------------------
(***************************************************************************)
(* The properties, as clauses over one observation of a fitted engine:     *)
(* w is the world the specification predicts (layout, instant, geometry,   *)
(* sky), ev the recorded observation.  Every clause yields a record        *)
(* [c: name, n: how many instances were judged, b: the offending ones].    *)
(***************************************************************************)
EXTENDS Radiosity, SequencesExt

K(c, n, b) == [c |-> c, n |-> n, b |-> b]
T7 == E(7)
T6 == E(6)
Near(a, b) == RNear(a, b, T7)
Nil(a) == RAbs(a) \prec E(8)
\* irradiances: W/m2, conditioned by 1/rho and by divisions by lengths
NearQ(a, b) == RNear(a, b, E(6))

SamePt(x, y, p) == Near(x, p[1]) /\ Near(y, p[2])
SameSeg(g, p, q) == \/ SamePt(g[1], g[2], p) /\ SamePt(g[3], g[4], q)
                    \/ SamePt(g[1], g[2], q) /\ SamePt(g[3], g[4], p)
Idx(w, Sel(_)) == { k \in 1..w.N : Sel(w.sfs[k].id) }
IdOf(w, S) == { w.sfs[k].id : k \in S }

\* judge clause c on surfaces S: those where Bad holds
OnS(c, w, S, Bad(_)) == K(c, Cardinality(S), IdOf(w, { k \in S : Bad(k) }))
On(c, S, Bad(_)) == K(c, Cardinality(S), { k \in S : Bad(k) })

Visible(w) == { k \in 1..w.N : E(7) \prec w.sfs[k].len }
Empty(w) == { k \in 1..w.N : w.sfs[k].len \prec E(9) }
PV(id) == id[1] = "pv"
Gnd(id) == id[1] # "pv"

---------------------------------------------------------------------------
(* P19 (structure common to all checks)                                     *)
CIds(w, ev) == << K("P19.ids", 1, IF ev.ids = SurfaceIds(w.lay) THEN {} ELSE {<<"surface set">>}),
                  K("P19.indices", w.N, IF {ev.idx[k] : k \in 1..Len(ev.idx)} = 0..(w.N-1) /\ Len(ev.idx) = w.N
                                        THEN {} ELSE {<<"indices">>}) >>
\* what is reported by surface number, as numbered there (row ix + 1 of a matrix is surface number ix)
CLinks(w, ev, skyOK, lit, FullLast(_)) ==
  LET N == w.N
      at(k) == ev.idx[k] + 1
      vis == Visible(w)
      same(x, k) == x.on[1] = w.sfs[k].id[1] /\ x.on[5] = w.sfs[k].id[5]
                    /\ (PV(x.on) => \A m \in 2..4 : x.on[m] = w.sfs[k].id[m])
      whose(x) == { k \in 1..N : ev.idx[k] = x.s.ix /\ same(x, k) }
      shows(x, k) == SameSeg(x.s.geo, w.sfs[k].p, w.sfs[k].q)
      inside(x, k) == /\ E(9) \prec w.sfs[k].len
                      /\ (RMin(x.s.geo[1], x.s.geo[3]) (-) E(7)) \preceq RMin(w.sfs[k].p[1], w.sfs[k].q[1])
                      /\ RMax(w.sfs[k].p[1], w.sfs[k].q[1]) \preceq (RMax(x.s.geo[1], x.s.geo[3]) (+) E(7))
      big(x) == E(7) \prec x.s.geo[5]
      strange(m) == { j \in 1..Len(ev.shown[m]) : LET x == ev.shown[m][j] IN
                        big(x) /\ ~\E k \in whose(x) : IF m = 3 THEN inside(x, k) ELSE shows(x, k) }
      twice(m) == { j \in 2..Len(ev.shown[m]) : \E i \in 1..(j-1) : ev.shown[m][i].s.ix = ev.shown[m][j].s.ix }
      shown(m) == strange(m) \cup twice(m)
      ref(k) == Rho(w.mod, w.in, w.sfs[k])
      raw == "rawF" \in DOMAIN ev
      M == N + 1
      listed == K("P19.list", N + 1, { m \in 1..N : Len(ev.listed) # N \/ Len(ev.tsix) # N \/ ev.count # << N, N >> }
            \cup { m \in 1..Len(ev.listed) : ~\E k \in 1..N : w.sfs[k].id = ev.listed[m] /\ ev.idx[k] = ev.tsix[m] })
      \* every part lists the numbers of its surfaces
      parts == K("P19.parts", Len(ev.numbers), { m \in 1..Len(ev.numbers) :
                 SortSeq(ev.numbers[m].l, LAMBDA a, b : a < b) # SortSeq(ev.numbers[m].s, LAMBDA a, b : a < b) })
  IN IF ~lit THEN << listed, parts >> ELSE
     << listed, parts,
        K("P19.vectors", N, { w.sfs[k].id : k \in { k \in 1..N :
            \/ ~Near(ev.mv.rho[at(k)], ref(k)) \/ ~Near(ev.mv.inv[at(k)] (.) ref(k), 1)
            \/ ~Near(ev.mv.tot[at(k)], ev.tot[k])
            \/ skyOK /\ k \in vis /\ \/ ~NearQ(ev.mv.irr[at(k)], IncSum(w, k))
                                     \/ ~NearQ(ev.mv.inc[at(k)], IncSum(w, k))
                                     \/ ~NearQ(ev.mv.abs[at(k)], AbsorbedSky(w, k)) } }),
        K("P19.sky", 1, IF Len(ev.mv.irr) = M /\ Len(ev.mv.rho) = M /\ Len(ev.mv.inv) = M /\ Len(ev.mv.tot) = M
                           /\ (skyOK => NearQ(ev.mv.irr[M], w.sky.lum)) THEN {} ELSE {"sky"}),
        K("P19.snapshot", Len(ev.shown[1]), shown(1)),
        K("P19.ground_snapshot", Len(ev.shown[2]), shown(2)) >>
     \o (IF w.sc.merged THEN << K("P19.merged_snapshot", Len(ev.shown[3]), shown(3)) >> ELSE <<>>)
     \o (IF ~raw THEN <<>> ELSE
          << K("P19.size", 1, IF Len(ev.rawF) = M /\ Len(ev.rawA) = M /\ \A m \in 1..M : Len(ev.rawF[m]) = M /\ Len(ev.rawA[m]) = M THEN {} ELSE {"size"}),
             OnS("P19.matrix", w, vis, LAMBDA k : \/ \E j \in 1..N : ~Near(ev.rawF[at(k)][at(j)] (.) w.sfs[k].len, w.X[k][j])
                                                 \/ ~Near(ev.rawF[at(k)][M] (.) w.sfs[k].len, w.xsky[k])),
             K("P19.aoi_matrix", IF UsesAoi(w.mod) THEN 0 ELSE Cardinality(vis), IF UsesAoi(w.mod) THEN {} ELSE
               { w.sfs[k].id : k \in { k \in vis :
                  \/ \E j \in 1..N : ~Near(ev.rawA[at(k)][at(j)] (.) w.sfs[k].len, (1 (-) ref(k)) (.) w.X[k][j])
                  \/ ~Near(ev.rawA[at(k)][M] (.) w.sfs[k].len, (1 (-) ref(k)) (.) w.xsky[k]) } }),
             OnS("P19.results", w, IF skyOK THEN { k \in vis : FullLast(w.sfs[k].id) } ELSE {}, LAMBDA k :
               \/ ~NearQ(ev.refl[k], Received(w, k, ev.q0)) \/ ~NearQ(ev.q0[k], ref(k) (.) ev.qinc[k])) >>)

(* P01: rows *)
CRows(w, ev) ==
  LET sc == w.sc  R == 1..w.lay.n
      rows == ev.rows
      segs == { <<i, sd, j>> \in R \X {1, 2} \X (1..9) : j <= w.lay.cut[i][sd] }
      ptsOf(s) == LET iv == SegInterval(sc, w.lay.cut[s[1]][s[2]], s[3])
                  IN << Pt(sc.centre[s[1]], sc.dir, iv[1]), Pt(sc.centre[s[1]], sc.dir, iv[2]) >>
      pieces(s) == { k \in 1..w.N : w.sfs[k].id[1] = "pv" /\ w.sfs[k].id[2] = s[1]
                                    /\ w.sfs[k].id[3] = s[2] /\ w.sfs[k].id[4] = s[3] }
      badPieces(s) ==
        LET ks == pieces(s)
            c == ev.rows[s[1]].seg[s[2]][s[3]]
            lens == TLCEval(RSum([k \in 1..w.N |-> IF k \in ks THEN ev.geo[k][5] ELSE 0]))
        IN ~Near(lens, RHyp(c[1] (-) c[3], c[2] (-) c[4]))
      nvBad(k) == LET v == ev.nv[k]
                      sg == IF w.sfs[k].id[3] = 1 THEN sc.nrm ELSE << RNeg(sc.nrm[1]), RNeg(sc.nrm[2]) >>
                      cross == (v[1] (.) sg[2]) (-) (v[2] (.) sg[1])
                      dot == (v[1] (.) sg[1]) (+) (v[2] (.) sg[2])
                  IN ~(RAbs(cross) \preceq (E(7) (.) RHyp(v[1], v[2])) /\ 0 \prec dot)
  IN << On("P01.row", R, LAMBDA i : ~SameSeg(rows[i].full, sc.b1[i], sc.b2[i])),
        On("P01.low", { i \in R : sc.lean # 0 }, LAMBDA i : ~(SamePt(rows[i].low[1], rows[i].low[2], sc.low[i])
                                                              /\ SamePt(rows[i].high[1], rows[i].high[2], sc.high[i]))),
        On("P01.segcount", R \X {1, 2}, LAMBDA p : Len(rows[p[1]].seg[p[2]]) # w.lay.cut[p[1]][p[2]]),
        On("P01.segment", segs, LAMBDA s : ~SameSeg(rows[s[1]].seg[s[2]][s[3]], ptsOf(s)[1], ptsOf(s)[2])),
        On("P01.tile", segs, badPieces),
        OnS("P01.normal", w, Idx(w, PV), nvBad),
        OnS("P01.place", w, { k \in Visible(w) : PV(w.sfs[k].id) }, LAMBDA k : ~SameSeg(ev.geo[k], w.sfs[k].p, w.sfs[k].q)) >>

(* P02: direct shading *)
CShade(w, ev) ==
  LET sc == w.sc  R == 1..w.lay.n
      pvs == Idx(w, PV)
  IN << On("P02.front", R, LAMBDA i : ~Near(ev.rows[i].shl[1], sc.shadeFront[i])),
        On("P02.back", R, LAMBDA i : ~Near(ev.rows[i].shl[2], sc.shadeBack[i])),
        On("P02.flag", {1}, LAMBDA x : (ev.flag = 1) # sc.merged),
        OnS("P02.length", w, pvs, LAMBDA k : ~Near(ev.geo[k][5], w.sfs[k].len)),
        OnS("P02.place", w, { k \in pvs : E(7) \prec w.sfs[k].len }, LAMBDA k : ~SameSeg(ev.geo[k], w.sfs[k].p, w.sfs[k].q)) >>

(* P03: ground shadows *)
CShadow(w, ev) ==
  LET sc == w.sc
      gs == { k \in 1..w.N : w.sfs[k].id[1] = "gs" }
  IN << On("P03.shadow", 1..w.lay.n, LAMBDA i :
             ~(/\ Near(ev.gsx[i][1], sc.gs[i][1])        \* from left to right
               /\ Near(ev.gsx[i][2], RMax(sc.gs[i][1], sc.gs[i][2])))),
        OnS("P03.length", w, gs, LAMBDA k : ~Near(ev.geo[k][5], w.sfs[k].len)),
        OnS("P03.place", w, { k \in gs : E(7) \prec w.sfs[k].len }, LAMBDA k : ~SameSeg(ev.geo[k], w.sfs[k].p, w.sfs[k].q)) >>

(* P04: ground tiling and sides *)
CGround(w, ev) ==
  LET sc == w.sc  n == w.lay.n
      g == Idx(w, Gnd)
      \* order of elements from left to right: gi 1, gs 1, gi 2, gs 2, ..., gi n+1
      order == [m \in 1..(2*n+1) |-> IF m % 2 = 1 THEN ev.gix[(m+1) \div 2] ELSE ev.gsx[m \div 2]]
      left(i) == { k \in g : w.sfs[k].id[3] <= i }
      onSide(i, S) == IF S = "left" THEN left(i) ELSE g \ left(i)
      nonEmpty(S) == { w.sfs[k].id : k \in { k \in S : E(7) \prec ev.geo[k][5] } }
      said(lst) == { lst[m] : m \in 1..Len(lst) }
      saidNonEmpty(lst) == said(lst) \cap nonEmpty(g)
      live(sh) == { k \in g : (w.sfs[k].id[5] = sh) /\ E(8) \prec ev.geo[k][5] }
      total(S) == TLCEval(RSum([k \in 1..w.N |-> IF k \in S THEN ev.geo[k][5] ELSE 0]))
      ambiguous == { k \in g : E(9) \prec ev.geo[k][5] /\ ev.geo[k][5] \prec E(7) }
      cutSane(i) == RFinite(sc.cut[i])
  IN << K("P04.total", 1, IF Near(total(g), 200) /\ Near(ev.gndlen[1], 200) THEN {} ELSE {<<"total length">>}),
        K("P04.shaded", 1, IF Near(ev.gndlen[2], total({k \in g : w.sfs[k].id[5] = 1})) THEN {} ELSE {<<"shaded length">>}),
        On("P04.adjacent", 1..(2*n), LAMBDA m : ~Near(order[m][2], order[m+1][1]) \/ ~(order[m][1] \preceq (order[m][2] (+) E(8)))),
        K("P04.ends", 1, IF Near(order[1][1], -100) /\ Near(order[2*n+1][2], 100) THEN {} ELSE {<<"ends">>}),
        On("P04.cut", { i \in 1..n : cutSane(i) }, LAMBDA i : ~Near(ev.cutx[i], sc.cut[i])),
        OnS("P04.zone", w, { k \in g : E(7) \prec ev.geo[k][5] }, LAMBDA k : ~SameSeg(ev.geo[k], w.sfs[k].p, w.sfs[k].q)),
        On("P04.sides", 1..n, LAMBDA i : saidNonEmpty(ev.sides[i][1]) # nonEmpty(left(i))
                                         \/ saidNonEmpty(ev.sides[i][2]) # nonEmpty(g \ left(i))),
        On("P04.nonpoint", IF ambiguous = {} THEN {0, 1} ELSE {}, LAMBDA sh :
             Len(ev.nonpt[sh+1]) # Cardinality(live(sh)) \/ ~Near(RSum(ev.nonpt[sh+1]), total(live(sh)))) >>

---------------------------------------------------------------------------
(* P05: view factors against the model;  P06: internal consistency           *)
CVF(w, ev) ==
  LET N == w.N  vis == Visible(w)
      len(k) == w.sfs[k].len
      pairs == vis \X (1..N)
  IN << On("P05.pair", pairs, LAMBDA p : ~Near(ev.F[p[1]][p[2]] (.) len(p[1]), w.X[p[1]][p[2]])),
        OnS("P05.sky", w, vis, LAMBDA k : ~Near(ev.F[k][N+1] (.) len(k), w.xsky[k])),
        OnS("P05.empty", w, Empty(w), LAMBDA k : \E j \in 1..(N+1) : ~Nil(ev.F[k][j])) >>
CEnergy(w, ev) ==
  LET N == w.N
      len(k) == ev.geo[k][5]
      live == { k \in 1..N : E(7) \prec len(k) }
      dead == { k \in 1..N : len(k) \prec E(9) }
      upper == { p \in live \X live : p[1] < p[2] }
      sameSide(i, j) == LET a == w.sfs[i].id  b == w.sfs[j].id IN
                        (Gnd(a) /\ Gnd(b)) \/ (PV(a) /\ PV(b) /\ a[2] = b[2])
  IN << OnS("P06.sum", w, live, LAMBDA k : ~Near(RSum(ev.F[k]), 1)),
        On("P06.range", live \X (1..(N+1)), LAMBDA p : ev.F[p[1]][p[2]] \prec RNeg(E(9)) \/ (1 (+) E(9)) \prec ev.F[p[1]][p[2]]),
        On("P06.reciprocal", upper, LAMBDA p : ~Near(ev.F[p[1]][p[2]] (.) len(p[1]), ev.F[p[2]][p[1]] (.) len(p[2]))),
        On("P06.self", { p \in live \X live : sameSide(p[1], p[2]) }, LAMBDA p : ~Nil(ev.F[p[1]][p[2]])),
        OnS("P06.empty", w, dead, LAMBDA k : (\E j \in 1..(N+1) : ~Nil(ev.F[k][j])) \/ (\E i \in live : ~Nil(ev.F[i][k]))) >>

---------------------------------------------------------------------------
(* Sky terms. Instants where the model's own discrete cases are undecided    *)
(* in floating point, or outside its meaning, are not judged.                *)
SkyDefined(mod, in) ==
  /\ in.z < 900
  /\ mod.kind = "hyb" => /\ ~(in.dni = 0 /\ in.dhi = 0)
                         /\ PerezDecided(in)
BackSide(id) == id[1] = "pv" /\ id[3] = 2
CSky(w, ev) ==
  LET all == 1..w.N
      share(k) == AbsorbedShare(w.mod, w.in, w.sfs[k])
      ref(k) == Rho(w.mod, w.in, w.sfs[k])
      comp(name, c) == OnS("P09." \o name, w, Visible(w), LAMBDA k : ~NearQ(ev.par[name][k], w.inc[k][c]))
      absd(name, c) == OnS("P09." \o name \o "_absorbed", w, Visible(w),
                           LAMBDA k : ~NearQ(ev.par[name \o "_absorbed"][k], w.inc[k][c] (.) share(k)[c]))
  IN << comp("direct", 1), absd("direct", 1),
        OnS("P09.rho", w, all, LAMBDA k : ~Near(ev.par.rho[k], ref(k)) \/ ~Near(ev.par.inv_rho[k] (.) ref(k), 1)),
        \* the components of a surface do not depend on its current size
        OnS("P09.kind", w, { k \in Empty(w) : ~BackSide(w.sfs[k].id) }, LAMBDA k : ~NearQ(ev.par.direct[k], w.inc[k][1])) >>
     \o (IF w.mod.kind = "hyb" THEN << comp("circumsolar", 2), comp("horizon", 3), absd("circumsolar", 2), absd("horizon", 3),
        OnS("P09.band", w, { k \in Visible(w) : BackSide(w.sfs[k].id) },
            LAMBDA k : LET o == ev.band[k] IN
              IF Len(o[1]) = 0 \/ Len(o[2]) = 0 THEN TRUE
              ELSE ~NearQ(o[1][1], w.sky.b[3]) \/ ~Near(o[2][1], 100 (.) HorizonHidden(w.sc, w.mod, w.sfs[k].id[2], MidPoint(w.sfs[k])))) >> ELSE <<>>)

(* P07: equilibrium *)
CEquilibrium(w, ev) ==
  LET all == Visible(w)
      q0 == ev.q0
      refl == TLCEval([k \in 1..w.N |-> IF w.sfs[k].len \prec LenTol THEN 0 ELSE Received(w, k, q0)])
      iso == TLCEval([k \in 1..w.N |-> Fsky(w, k) (.) w.sky.lum])
      q(k) == RSum(<< IncSum(w, k), iso[k], refl[k] >>)
  IN << OnS("P07.balance", w, all, LAMBDA k : ~NearQ(ev.qinc[k], q(k))),
        OnS("P07.reflect", w, all, LAMBDA k : ~NearQ(ev.q0[k], Rho(w.mod, w.in, w.sfs[k]) (.) ev.qinc[k])),
        OnS("P07.isotropic", w, all, LAMBDA k : ~NearQ(ev.iso[k], iso[k])),
        OnS("P07.reflection", w, all, LAMBDA k : ~NearQ(ev.refl[k], refl[k])) >>

(* P08: absorption *)
CAbsorbed(w, ev) ==
  LET N == w.N
      aoi == UsesAoi(w.mod)
      S == { k \in Visible(w) : ~aoi \/ PV(w.sfs[k].id) }
      Pf == TLCEval(SecVals(IF aoi THEN w.mod.vff ELSE 0, w.mod.nsec))
      Pb == TLCEval(SecVals(IF aoi THEN w.mod.vfb ELSE 0, w.mod.nsec))
      rows == [ k \in S |-> IF ~aoi THEN <<>> ELSE TLCEval(AoiRow(w, k, IF w.sfs[k].id[3] = 1 THEN Pf ELSE Pb)) ]
      q(j) == IF j <= N THEN ev.q0[j] ELSE w.sky.lum
      one(k) == 1 (-) Rho(w.mod, w.in, w.sfs[k])
      \* (a luminance may be negative: the Perez model gives F1 > 1 at low sun)
      term(k, j, b) == IF b = 1 THEN RMin(rows[k][j][1] (.) q(j), rows[k][j][2] (.) q(j))
                                ELSE RMax(rows[k][j][1] (.) q(j), rows[k][j][2] (.) q(j))
      want(k, b) == IF aoi THEN AbsorbedSky(w, k) (+) RSum([j \in 1..(N+1) |-> term(k, j, b)])
                    ELSE AbsorbedSky(w, k) (+) (one(k) (.) ((Received(w, k, ev.q0)) (+) (Fsky(w, k) (.) w.sky.lum)))
      slack(x) == E(6) (.) RMax(1, RAbs(x))
      within(x, lo, hi) == (lo (-) slack(lo)) \preceq x /\ x \preceq (hi (+) slack(hi))
  IN << OnS(IF aoi THEN "P08.qabs_aoi" ELSE "P08.qabs", w, S, LAMBDA k : ~within(ev.qabs[k], want(k, 1), want(k, 2))),
        OnS("P08.q0", w, Visible(w), LAMBDA k : ~NearQ(ev.q0[k], Rho(w.mod, w.in, w.sfs[k]) (.) ev.qinc[k])) >>
     \o (IF aoi /\ "A" \in DOMAIN ev
         THEN << On("P08.wedge", S \X (1..(N+1)), LAMBDA p :
                    ~(LET x == ev.A[p[1]][p[2]]  r == rows[p[1]][p[2]] IN
                      (r[1] (-) E(7)) \preceq x /\ x \preceq (r[2] (+) E(7)))) >> ELSE <<>>)

(* P10: fast mode, surfaces on which the last run was a fast one              *)
CFast(w, ev, FastLast(_), FastEver(_)) ==
  LET S == { k \in Visible(w) : FastLast(w.sfs[k].id) }
      V == { k \in Visible(w) : FastEver(w.sfs[k].id) }
      ft == TLCEval([ k \in (S \cup V) |-> TLCEval(FastTerms(w, k)) ])
      vfBad(k) == LET f == ft[k].vf  o == ev.fvf[k] IN
         IF Len(o) = 0 THEN TRUE ELSE
         \/ ~Near(o[1], f.gs) \/ ~Near(o[2], f.gi) \/ ~Near(o[3], f.gt) \/ ~Near(o[4], f.pt)
         \/ ~Near(o[5], f.ps) \/ ~Near(o[6], f.pi) \/ ~Near(o[7], f.sky)
         \/ \E e \in 1..w.lay.n : ~Near(ev.feach[k][e], f.each[e])
      trBad(k) == LET f == ft[k]  o == ev.ftr[k] IN
         IF Len(o) = 0 THEN TRUE ELSE
         ~NearQ(o[1], f.rgs) \/ ~NearQ(o[2], f.rgi) \/ ~NearQ(o[3], f.rps) \/ ~NearQ(o[4], f.rpi) \/ ~NearQ(o[5], f.term)
  IN << OnS("P10.qinc", w, S, LAMBDA k : ~NearQ(ev.qinc[k], ft[k].qinc)),
        OnS("P10.isotropic", w, S, LAMBDA k : ~NearQ(ev.iso[k], ft[k].iso)),
        OnS("P10.reflection", w, S, LAMBDA k : ~NearQ(ev.refl[k], ft[k].refl)),
        OnS("P10.viewfactors", w, V, vfBad),
        OnS("P10.breakdown", w, V, trBad),
        OnS("P10.sum", w, S, LAMBDA k : ~NearQ(ev.qinc[k], RSum(<<ev.iso[k], ev.refl[k], ev.ftr[k][5]>>))) >>

---------------------------------------------------------------------------
(* P11: reflectivity of the modules                                          *)
CRho(w, ev) ==
  LET mods == Idx(w, PV)
      ref(k) == Rho(w.mod, w.in, w.sfs[k])
      share(k) == AbsorbedShare(w.mod, w.in, w.sfs[k])
  IN << OnS("P11.rho", w, mods, LAMBDA k : ~Near(ev.par.rho[k], ref(k))),
        OnS("P11.inv_rho", w, mods, LAMBDA k : ~Near(ev.par.inv_rho[k] (.) ref(k), 1)),
        OnS("P11.absorbed", w, mods, LAMBDA k : ~NearQ(ev.par.direct_absorbed[k], w.inc[k][1] (.) share(k)[1])) >>
     \o (IF "q0" \in DOMAIN ev
         THEN << OnS("P11.reflected", w, { k \in mods : E(7) \prec w.sfs[k].len },
                     LAMBDA k : ~NearQ(ev.q0[k], ref(k) (.) ev.qinc[k])) >> ELSE <<>>)

\* a loss function, asked at several angles
CLoss(ev) == << On("P11.loss", 1..Len(ev.a), LAMBDA j : ~RNear(ev.v[j], Faoi(ev.c, RDec(ev.a[j], 100)), E(9))) >>

---------------------------------------------------------------------------
(* P17: averages of the parts, and what was set on them. Carry(name, id) is  *)
(* the value last set on id since the fit, <<>> if none.                      *)
SameOpt(a, b) == Len(a) = Len(b) /\ (Len(a) = 1 => RNear(a[1], b[1], T7))
Members(w, c, Covered(_, _)) == { k \in 1..w.N : Covered(c, w.sfs[k].id) }
\* sum over surfaces S of len * value
WSum(S, N, len(_), v) == TLCEval(RSum([k \in 1..N |-> IF k \in S THEN len(k) (.) v[k][1] ELSE 0]))
CAgg(w, ev, names, Carry(_, _), Covered(_, _)) ==
  LET N == w.N
      len(k) == ev.geo[k][5]
      one(x) == TLCEval(LET S == Members(w, x.c, Covered)
                            L == TLCEval(RSum([k \in 1..N |-> IF k \in S THEN len(k) ELSE 0]))
                            known(nm) == \A k \in S : ev.uv[nm][k] # <<>>
                            Z == { nm \in DOMAIN x.w : ~Nil(L) /\ E(6) \prec L /\ known(nm) }
                            ss == TLCEval([ nm \in Z |-> WSum(S, N, len, ev.uv[nm]) ])
                        IN [ len |-> Near(x.len, L), n |-> Cardinality(Z),
                             bad |-> { nm \in Z : \/ x.w[nm] = <<>>
                                                  \/ ~RNear(x.w[nm][1] (.) L, ss[nm], T6)
                                                  \/ ~RNear(x.w[nm][2], ss[nm], T6) } ])
      part(tag, xs) == LET r == TLCEval([ m \in 1..Len(xs) |-> one(xs[m]) ]) IN
         << On("P17." \o tag \o "length", 1..Len(xs), LAMBDA m : ~r[m].len),
            K("P17." \o tag \o "average", FoldLeft(LAMBDA a, q : a + q.n, 0, r),
              { <<xs[m].c, r[m].bad>> : m \in { m \in 1..Len(xs) : r[m].bad # {} } }) >>
      gpid(sh) == <<"gp", 0, 0, 0, sh>>
  IN part("", ev.agg) \o part("snapshot_", ev.sagg)
     \o << OnS("P17.update", w, 1..N, LAMBDA k : \E nm \in names : ~SameOpt(ev.uv[nm][k], Carry(nm, w.sfs[k].id))),
           On("P17.ground", {0, 1}, LAMBDA sh : \E nm \in names :
               \/ ~SameOpt(ev.gp[nm][sh+1], Carry(nm, gpid(sh)))
               \/ \E j \in 1..Len(ev.ge[nm][sh+1]) : ~SameOpt(ev.ge[nm][sh+1][j], Carry(nm, <<"ge", j, 0, 0, sh>>))) >>

\* a side assembled by hand: segs[j][1 lit, 2 shaded] is a list of <<lengths, values>> over two instants
CHand(ev) ==
  LET segs == ev.segs
      pick(c) == CASE c[1] = "hside" -> { <<j, sh>> : j \in 1..Len(segs), sh \in {1, 2} }
                   [] c[1] = "hseg"  -> { <<c[4], sh>> : sh \in {1, 2} }
                   [] OTHER          -> { <<c[4], c[5] + 1>> }
      tot(c, t, F(_, _)) == FoldLeft(LAMBDA a, j : a +
           (IF <<j, 1>> \in pick(c) THEN FoldLeft(LAMBDA b, q : b + F(q, t), 0, segs[j][1]) ELSE 0)
         + (IF <<j, 2>> \in pick(c) THEN FoldLeft(LAMBDA b, q : b + F(q, t), 0, segs[j][2]) ELSE 0), 0, [j \in 1..Len(segs) |-> j])
      L(c, t) == tot(c, t, LAMBDA q, u : q[1][u])
      S(c, t) == tot(c, t, LAMBDA q, u : q[1][u] * q[2][u])
      cases == { <<t, m>> : t \in {1, 2}, m \in 1..Len(ev.agg[1]) }
      bad(p) == LET x == ev.agg[p[1]][p[2]]  l == L(x.c, p[1])  s == S(x.c, p[1]) IN
                \/ ~Near(x.len, RDec(l, 100))
                \/ l > 0 /\ ( \/ x.w.u1 = <<>>
                               \/ ~Near(x.w.u1[1] (.) l, RDec(s, 10))
                               \/ ~Near(x.w.u1[2], RDec(s, 1000)) )
  IN << On("P17.assembled", cases, bad) >>

---------------------------------------------------------------------------
(* P16: a snapshot of one timestep                                           *)
SameDir(v, n) == LET cross == (v[1] (.) n[2]) (-) (v[2] (.) n[1])
                     dot == (v[1] (.) n[1]) (+) (v[2] (.) n[2])
                 IN RAbs(cross) \preceq (E(7) (.) (RHyp(v[1], v[2]) (.) RHyp(n[1], n[2]))) /\ 0 \prec dot
Opposite(v) == << RNeg(v[1]), RNeg(v[2]) >>
CSnap(w, ev, names) ==
  LET sc == w.sc  n == w.lay.n  N == w.N
      len(k) == w.sfs[k].len
      unclear == { k \in 1..N : E(10) \prec ev.geo[k][5] /\ ev.geo[k][5] \prec E(7) }
      live(k) == E(8) \prec ev.geo[k][5]
      \* one snapshot surface x shows timeseries surface k
      shows(x, k, withValues) ==
         /\ x.pn = 1
         /\ SameSeg(x.geo, w.sfs[k].p, w.sfs[k].q)
         /\ Near(x.geo[5], len(k))
         /\ x.ix = ev.idx[k]
         /\ x.sh = w.sfs[k].id[5]
         /\ withValues => \A m \in 1..Len(ev.names) : SameOpt(x.v[m], ev.tv[k][m])
         /\ SameDir(x.nv, IF Gnd(w.sfs[k].id) THEN <<0, 1>>
                           ELSE IF w.sfs[k].id[3] = 1 THEN sc.nrm ELSE Opposite(sc.nrm))
      listOf(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
      showsAll(xs, S) == LET ks == listOf(S) IN Len(xs) = Len(ks) /\ \A m \in 1..Len(xs) : shows(xs[m], ks[m], TRUE)
      ofSeg(i, sd, j, sh) == { k \in 1..N : w.sfs[k].id = <<"pv", i, sd, j, sh>> /\ live(k) }
      segs == { <<i, sd, j>> \in (1..n) \X {1, 2} \X (1..9) : j <= w.lay.cut[i][sd] }
      segBad(s) == LET x == ev.snap[s[1]].sides[s[2]].segs[s[3]]
                       lit == ofSeg(s[1], s[2], s[3], 0)  dark == ofSeg(s[1], s[2], s[3], 1)
                       tot(S) == RSum([k \in 1..N |-> IF k \in S THEN len(k) ELSE 0])
                   IN \/ ~showsAll(x.s[1], lit) \/ ~showsAll(x.s[2], dark)
                      \/ ~Near(x.len[1], tot(lit \cup dark)) \/ ~Near(x.len[2], tot(dark))
                      \/ x.ix # s[3] - 1
      ixOf(S) == { ev.idx[k] : k \in S }
      asSet(q) == { q[m] : m \in 1..Len(q) }
      named(q) == \A m \in 1..Len(q) : q[m].nm = names
      sameIxs(q, S) == asSet(q) = ixOf(S) /\ Len(q) = Cardinality(S)
      onSide(i, sd) == { k \in 1..N : w.sfs[k].id[1] = "pv" /\ w.sfs[k].id[2] = i /\ w.sfs[k].id[3] = sd /\ live(k) }
      listing(s) == ~sameIxs(ev.snap[s[1]].sides[s[2]].segs[s[3]].ixs, ofSeg(s[1], s[2], s[3], 0) \cup ofSeg(s[1], s[2], s[3], 1))
      rowBad(i) == LET x == ev.snap[i] IN
         \/ x.ix # i - 1
         \/ ~SameSeg(x.line, sc.b1[i], sc.b2[i])
         \/ sc.lean # 0 /\ (~SamePt(x.hi[1], x.hi[2], sc.high[i]) \/ ~SamePt(x.lo[1], x.lo[2], sc.low[i]))
         \/ ~sameIxs(x.all, onSide(i, 1) \cup onSide(i, 2)) \/ ~sameIxs(x.ixs, onSide(i, 1) \cup onSide(i, 2))
         \/ \E sd \in {1, 2} : ~sameIxs(x.sides[sd].ixs, onSide(i, sd)) \/ x.sides[sd].n # w.lay.cut[i][sd]
      \* ground: elements (shadows, lit stretches) that are no points
      lo(ab) == ab[1]  hi(ab) == ab[2]
      els(q) == SelectSeq(q, LAMBDA ab : E(8) \prec (ab[2] (-) ab[1]))
      gsh == els(sc.gs)  gil == els(sc.gi)
      shade == sc.merged /\ Len(gsh) > 1
      whole == << <<gsh[1][1], gsh[Len(gsh)][2]>> >>
      \* surfaces of kind kd, cut at the cut points only
      kindOf(kd) == { k \in 1..N : w.sfs[k].id[1] = kd /\ live(k) }
      zones == 1..(n+1)
      merged == SelectSeq([z \in zones |-> << ZoneOf(sc, whole[1], z)[1][1], ZoneOf(sc, whole[1], z)[2][1], z >>],
                          LAMBDA ab : E(8) \prec (ab[2] (-) ab[1]))
      \* a shadow boundary on a cut point: merging is undecided
      onCut == \E i \in 1..Len(gsh), j \in 1..n : \E m \in {1, 2} : RNear(gsh[i][m], sc.cut[j], E(6))
      flat(x, ab) == SameSeg(x.geo, <<ab[1], 0>>, <<ab[2], 0>>) /\ x.pn = 1 /\ SameDir(x.nv, <<0, 1>>)
      plain(xs, q, sh) == /\ Len(xs) = Len(q)
                          /\ \A m \in 1..Len(q) : /\ flat(xs[m], q[m]) /\ xs[m].sh = sh
                                /\ \A v \in 1..Len(ev.names) : SameOpt(xs[m].v[v], ev.gp[ev.names[v]][sh+1])
      \* a merged surface carries the identity and the values of one of those it is made of
      within(k, ab) == (ab[1] (-) E(7)) \preceq w.sfs[k].p[1] /\ w.sfs[k].q[1] \preceq (ab[2] (+) E(7))
      fromOne(x, ab) == /\ flat(x, ab) /\ x.sh = 1
                        /\ \E k \in kindOf("gs") : /\ within(k, ab) /\ x.ix = ev.idx[k]
                                                    /\ \A m \in 1..Len(ev.names) : SameOpt(x.v[m], ev.tv[k][m])
      gBad(g) ==
         LET sum(q) == RSum([m \in 1..Len(q) |-> q[m][2] (-) q[m][1]]) IN
         \/ ~Near(g.len[1], 200) \/ ~Near(g.len[2], sum(gsh)) \/ ~SameSeg(g.line, << -100, 0 >>, << 100, 0 >>)
         \/ IF g.cut = 0
            THEN \/ ~plain(g.il, gil, 0)
                 \/ ~plain(g.sh, IF g.merge = 1 /\ shade THEN whole ELSE gsh, 1)
            ELSE \/ ~showsAll(g.il, kindOf("gi"))
                 \/ IF g.merge = 1 /\ shade
                    THEN /\ ~onCut
                         /\ \/ Len(g.sh) # Len(merged)
                            \/ \E m \in 1..Len(merged) : ~fromOne(g.sh[m], merged[m])
                    ELSE ~showsAll(g.sh, kindOf("gs"))
      tag(g) == (IF g.cut = 1 THEN "cut" ELSE "whole") \o (IF g.merge = 1 /\ shade THEN "_merged" ELSE "")
  IN IF unclear # {} THEN << K("skip.points", 1, {}) >>
     ELSE << On("P16.segment", segs, segBad), On("P16.listing", segs, listing), On("P16.row", 1..n, rowBad),
             K("P16.untouched", 1, IF ev.same = 1 THEN {} ELSE {"changed"}),
             \* a snapshot's surfaces have the array's parameters, and each has its own
             On("P16.names", segs, LAMBDA s : \E sh \in {1, 2} : ~named(ev.snap[s[1]].sides[s[2]].segs[s[3]].s[sh])),
             On("P16.names_ground", 1..Len(ev.gsnap), LAMBDA m : ~named(ev.gsnap[m].sh) \/ ~named(ev.gsnap[m].il)),
             On("P16.own", 1..Len(ev.own), LAMBDA m : \E j \in 1..Len(ev.own[m]) : ev.own[m][j] # j) >>
          \o [ m \in 1..Len(ev.gsnap) |-> K("P16.ground_" \o tag(ev.gsnap[m]), 1, IF gBad(ev.gsnap[m]) THEN {m} ELSE {}) ]
=============================================================================
