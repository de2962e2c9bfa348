------------------------------ MODULE SkyAlone ------------------------------
(***************************************************************************)
(* P23: the sky model on its own. One event: sky [rows: orientations and   *)
(* weather, n: number of rows reported, o: per row                         *)
(*   <<isotropic, circumsolar, horizon, total>> on the plane,              *)
(*   <<isotropic, circumsolar, horizon>> brightness of the parts,          *)
(*   <<isotropic, circumsolar, horizon>> view factors,                     *)
(* echo: the inputs as reported back, when: day of the year and minute]    *)
(***************************************************************************)
EXTENDS Clauses

\* instants of which the model's own discrete cases are decided in floating point
Decided(in) ==
  /\ in.z < 900 /\ in.dni + in.dhi > 0 /\ in.dni >= 0 /\ in.dhi >= 0
  /\ ~(RAbs(CosAOI(in)) \prec E(6))
  /\ PerezDecided(in)
Night(in) == in.z > 900 /\ in.dni >= 0 /\ in.dhi >= 0

CSkyAlone(ev) ==
  LET I == 1..Len(ev.rows)
      whole == ev.n = Len(ev.rows) /\ Len(ev.o) = Len(ev.rows)
      day == IF whole THEN { i \in I : Decided(ev.rows[i]) } ELSE {}
      dark == IF whole THEN { i \in I : Night(ev.rows[i]) } ELSE {}
      in(i) == ev.rows[i]
      F == TLCEval([ i \in day |-> PerezCoef(in(i)) ])
      front == TLCEval([ i \in day |-> TLCEval(PerezOn(in(i), F[i], Tilt(in(i)), CosAOI(in(i)))) ])
      vf(i) == << (1 (+) RCosD(Tilt(in(i)))) (/) 2, RMax(0, CosAOI(in(i))) (/) RMax(CosZ(in(i)), RCosD(85)), RSinD(Tilt(in(i))) >>
      show(i) == [ z |-> in(i).z, a |-> in(i).a, t |-> in(i).t, s |-> in(i).s, dni |-> in(i).dni, dhi |-> in(i).dhi ]
      on(c, S, Bad(_)) == K(c, Cardinality(S), { show(i) : i \in { i \in S : Bad(i) } })
      p(i, k) == ev.o[i][1][k]
      l(i, k) == ev.o[i][2][k]
      v(i, k) == ev.o[i][3][k]
      flat(i) == in(i).t = 0 \/ in(i).t = 1800
  IN << K("P23.rows", 1, IF whole THEN {} ELSE { ev.n }),
        on("P23.echo", IF whole THEN I ELSE {}, LAMBDA i :
             \/ ~Near(ev.echo[i][1], RDec(in(i).z, 10)) \/ ~Near(ev.echo[i][2], RDec(in(i).a, 10))
             \/ ~Near(ev.echo[i][3], RDec(in(i).t, 10)) \/ ~Near(ev.echo[i][4], RDec(in(i).s, 10))
             \/ ~Near(ev.echo[i][5], in(i).dni) \/ ~Near(ev.echo[i][6], in(i).dhi) \/ ev.when[i] # << in(i).doy, 720 >>),
        on("P23.viewfactors", day, LAMBDA i : LET x == vf(i) IN \E k \in 1..3 : ~Near(v(i, k), x[k])),
        on("P23.circumsolar", day, LAMBDA i : ~NearQ(p(i, 2), front[i].cir)),
        on("P23.horizon", day, LAMBDA i : ~NearQ(p(i, 3), front[i].hor)),
        \* the dome and the area around the sun are equally bright for every plane
        on("P23.isotropic", day, LAMBDA i : ~NearQ(l(i, 1), DomeLum(in(i), F[i]))),
        on("P23.halo", day, LAMBDA i : ~NearQ(l(i, 2), HaloLum(in(i), F[i]))),
        \* what arrives is brightness times view factor, and adds up
        on("P23.product", { i \in day : ~front[i].dark /\ ~Horizontal(in(i), F[i]).dark }, LAMBDA i :
             \/ ~NearQ(p(i, 1), l(i, 1) (.) v(i, 1))
             \/ ~NearQ(p(i, 2), IF FrontLit(in(i)) THEN l(i, 2) (.) v(i, 2) ELSE 0)
             \/ (~flat(i) /\ ~NearQ(p(i, 3), l(i, 3) (.) v(i, 3)))),
        on("P23.dark", { i \in day : front[i].dark }, LAMBDA i : \E k \in 1..4 : ~NearQ(p(i, k), 0)),
        on("P23.total", day, LAMBDA i : ~NearQ(p(i, 4), RSum(<< p(i, 1), p(i, 2), p(i, 3) >>)) \/ p(i, 4) \prec 0),
        on("P23.night", dark, LAMBDA i : \E k \in 1..4 : ~REq(p(i, k), 0) \/ (k < 4 /\ ~REq(l(i, k), 0))) >>
=============================================================================
