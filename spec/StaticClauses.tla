--------------------------- MODULE StaticClauses ---------------------------
(***************************************************************************)
(* P18: what is observed of static geometry, against module StaticGeom.    *)
(* geom[e] = [fr: frame (as created), sides: sequence of sides,            *)
(*            put: the value just put on a parameter, or -1, and to: where] *)
(***************************************************************************)
EXTENDS StaticGeom, Clauses, Functions

\* the sides of a new geometry
NewGeom(ev) == [ fr |-> [ kind |-> ev.kind, ang |-> ev.ang, len |-> ev.len, x |-> ev.x, y |-> ev.y, nv |-> ev.nv, G |-> ev.G ],
                 sides |-> [ k \in 1..Len(ev.n) |-> NewSide(ev.n[k], ev.G, ev.sh = 1) ], put |-> ev.v, to |-> ev.to ]
\* ... after an operation on side ev.sd
Operated(s, ev) ==
  CASE ev.do = "cast" -> IF ev.off = 0 THEN Cast(s, ev.a, ev.b) ELSE Leave(s)
    [] ev.do = "cut" -> IF ev.off = 0 THEN CutAt(s, ev.x) ELSE Leave(s)
    [] ev.do = "merge" -> MergeShade(s)
    [] ev.do = "reset" -> Reset(s, ev.j, ev.sh)
    [] ev.do = "refill" -> Refill(s, ev.j, ev.a, ev.b)
GeomOp(g, ev) == [ g EXCEPT !.sides[ev.sd] = Operated(@, ev), !.put = ev.v, !.to = ev.to ]

CStatic(g, ev) ==
  LET fr == g.fr
      u == << RCosD(RDec(fr.ang, 10)), RSinD(RDec(fr.ang, 10)) >>
      len == RDec(fr.len, 1000)
      mid == << RDec(fr.x, 1000), RDec(fr.y, 1000) >>
      \* place along the side (0..G) and distance from it
      along(x, y) == RMul(fr.G, (RDec(1, 2) (+) ((((x (-) mid[1]) (.) u[1]) (+) ((y (-) mid[2]) (.) u[2])) (/) len)))
      aside(x, y) == ((y (-) mid[2]) (.) u[1]) (-) ((x (-) mid[1]) (.) u[2])
      up == << RNeg(u[2]), u[1] >>
      normal(sd) == IF (sd = 2) # (fr.nv = 2) THEN Opposite(up) ELSE up
      S == 1..Len(ev.sides)
      places == { <<sd, j, c, k>> \in S \X (1..6) \X {0, 1} \X (1..40) :
                    j <= Len(ev.sides[sd].segs) /\ k <= Len(ev.sides[sd].segs[j].s[c + 1]) }
      at(p) == ev.sides[p[1]].segs[p[2]].s[p[3] + 1][p[4]]
      \* from, to, distances
      loc == TLCEval([ p \in places |-> LET o == at(p).g
                                            a == along(o[1], o[2])  b == along(o[3], o[4])
                                        IN TLCEval(<< RMin(a, b), RMax(a, b), RMax(RAbs(aside(o[1], o[2])), RAbs(aside(o[3], o[4]))) >>) ])
      real == TLCEval({ p \in places : E(5) \prec (loc[p][2] (-) loc[p][1]) })
      segs == { <<sd, j>> \in S \X (1..6) : j <= Len(ev.sides[sd].segs) }
      cells == { <<sd, j, c>> \in S \X (1..6) \X (1..fr.G) : <<sd, j>> \in segs /\ c \in SegCells(g.sides[sd].n, fr.G, j) }
      cover(q, sh) == TLCEval(LET P == { p \in real : p[1] = q[1] /\ p[2] = q[2] /\ p[3] = sh }
                                  in(p) == RMax(0, RMin(loc[p][2], q[3]) (-) RMax(loc[p][1], q[3] - 1))
                              IN FoldFunction(LAMBDA x, y : x (+) y, 0, [p \in P |-> in(p)]))
      C5(a, b) == RAbs(a (-) b) \prec E(5)
      unit(sd, n) == len (.) RDec(n, fr.G)
      dark(sd, j) == Cardinality(g.sides[sd].shade \cap SegCells(g.sides[sd].n, fr.G, j))
      allLen(sd, j) == Cardinality(SegCells(g.sides[sd].n, fr.G, j))
      lens == segs \cup { <<sd, 0>> : sd \in S }
      badLen(p) == LET o == IF p[2] = 0 THEN ev.sides[p[1]].len ELSE ev.sides[p[1]].segs[p[2]].len
                       js == IF p[2] = 0 THEN 1..g.sides[p[1]].n ELSE {p[2]}
                       sum(F(_, _)) == FoldFunction(LAMBDA x, y : x + y, 0, [j \in js |-> F(p[1], j)])
                   IN ~RNear(o[1], unit(p[1], sum(allLen)), T6) \/ ~RNear(o[2], unit(p[1], sum(dark)), T6)
      ends(sd) == Bounds(g.sides[sd].n, fr.G)
      badEnd(p) == \E m \in {1, 2} : ~\E x \in ends(p[1]) \cup g.sides[p[1]].marks : C5(loc[p][m], x)
      inside(x, p) == (loc[p][1] (+) E(5)) \prec x /\ x \prec (loc[p][2] (-) E(5))
      cutPts == { <<sd, x>> \in S \X (1..fr.G) : x \in g.sides[sd].cuts }
      listing(lst, P) == Len(lst) = Cardinality(P) /\ { lst[m] : m \in 1..Len(lst) } = P
      seen(sd, j) == { p \in places : p[1] = sd /\ (j = 0 \/ p[2] = j) }
      sum(sd) == LET P == { p \in places : p[1] = sd } IN
                 FoldFunction(LAMBDA x, y : x (+) y, 0, [p \in P |-> at(p).v[1] (.) at(p).g[5]])
  IN << K("P18.sides", 1, IF Len(ev.sides) = Len(g.sides) /\ \A sd \in S : Len(ev.sides[sd].segs) = g.sides[sd].n THEN {} ELSE {"sides"}),
        On("P18.cover", cells, LAMBDA q : LET sh == IF q[3] \in g.sides[q[1]].shade THEN 1 ELSE 0 IN
              ~C5(cover(q, sh), 1) \/ ~C5(cover(q, 1 - sh), 0)),
        On("P18.line", places, LAMBDA p : ~(loc[p][3] \prec E(6)) \/ at(p).k # 2
              \/ ~(RNeg(E(5)) \prec loc[p][1] /\ loc[p][2] \prec (fr.G (+) E(5)))),
        On("P18.length", lens, badLen),
        On("P18.normal", real, LAMBDA p : ~SameDir(at(p).nv, normal(p[1]))),
        On("P18.names", places, LAMBDA p : at(p).pn # <<"a", "b">> \/ at(p).pk # <<"a", "b">>),
        On("P18.flag", places, LAMBDA p : at(p).sh # p[3]),
        On("P18.ends", real, badEnd),
        On("P18.cut", cutPts, LAMBDA q : \E p \in real : p[1] = q[1] /\ inside(q[2], p)),
        On("P18.merged", { s \in segs : g.sides[s[1]].merged }, LAMBDA s :
              Cardinality({ p \in real : p[1] = s[1] /\ p[2] = s[2] /\ p[3] = 1 }) > 1),
        On("P18.listing", lens, LAMBDA s :
              IF s[2] = 0 THEN ~listing(ev.sides[s[1]].all, seen(s[1], 0)) \/ ev.sides[s[1]].n # << Cardinality(seen(s[1], 0)) >>
                               \/ ev.sides[s[1]].ixs # Cardinality(seen(s[1], 0))
              ELSE ~listing(ev.sides[s[1]].segs[s[2]].all, seen(s[1], s[2])) \/ ev.sides[s[1]].segs[s[2]].n # << Cardinality(seen(s[1], s[2])) >>),
        K("P18.whole", IF ev.whole = <<>> THEN 0 ELSE 1, IF ev.whole = <<>> \/ listing(ev.whole, places) THEN {} ELSE {"whole"}),
        \* what it lies on does not change
        K("P18.extent", IF fr.kind = "side" THEN 0 ELSE 1,
          LET o == ev.extent
              place(m) == << along(o[m][1], o[m][2]), aside(o[m][1], o[m][2]) >>
              on(m, x) == C5(place(m)[1], x) /\ RAbs(place(m)[2]) \prec E(6)
          IN IF \/ fr.kind = "side"
                \/ /\ (on(1, 0) /\ on(2, fr.G)) \/ (on(1, fr.G) /\ on(2, 0))
                   /\ Len(o) = 2 \/ RAbs(u[2]) \prec E(6) \/ LET top == IF 0 \prec u[2] THEN fr.G ELSE 0 IN on(3, top) /\ on(4, fr.G - top)
             THEN {} ELSE {"extent"}),
        \* a value is on the surfaces it was put on, and on no other
        On("P18.value", IF g.put < 0 THEN {} ELSE { p \in places : Reaches(g.to, p) }, LAMBDA p : Len(at(p).v) # 1 \/ ~Near(at(p).v[1], g.put)),
        On("P18.apart", IF g.put < 0 THEN {} ELSE { p \in places : ~Reaches(g.to, p) }, LAMBDA p : Len(at(p).v) = 1 /\ Near(at(p).v[1], g.put)),
        \* a side's average is that of its surfaces
        On("P18.average", { sd \in S : ev.sides[sd].avg # <<>> }, LAMBDA sd : LET o == ev.sides[sd].avg IN Len(o) # 2
              \/ ~RNear(o[2], sum(sd), T6) \/ ~RNear(o[1] (.) len, o[2], T6)) >>
=============================================================================
