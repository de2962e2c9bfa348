------------------------------- MODULE Planar -------------------------------
(***************************************************************************)
(* P25: the geometry helpers work out, on real numbers, what a grid of     *)
(* whole numbers says exactly.  The code is given the image of the grid    *)
(* under a turn, a scale and a shift f = <<angle (1/10 deg), scale         *)
(* (1/1000), x, y (mm)>>.                                                  *)
(*                                                                         *)
(* Events: plane, with g, the kind of question, and                        *)
(*   diff [u, v: pairs of points, o: seq of pieces <<x1, y1, x2, y2>>]     *)
(*   has  [u: pair of points, p: point, off: 1e-9 m off sideways,          *)
(*         is: 1 if the line has the point]                                 *)
(*   proj [p: point, d: direction, u: pair of points, must: it has to be on*)
(*         the line, x: <<x, y>> or <<>>]                                  *)
(*   same [d: directions of surfaces (<<0, 0>>: no surface), sh: shaded?,  *)
(*         ans: answers, see Parallels]                                      *)
(*   line [u: pairs of points, one per timestep, v: values, seen: ...]      *)
(***************************************************************************)
EXTENDS Clauses

Image(f, p) ==
  LET s == RDec(f[2], 1000)  c == RCosD(RDec(f[1], 10))  n == RSinD(RDec(f[1], 10))
  IN << RDec(f[3], 1000) (+) (s (.) (RMul(c, p[1]) (-) RMul(n, p[2]))),
        RDec(f[4], 1000) (+) (s (.) (RMul(n, p[1]) (+) RMul(c, p[2]))) >>
Cross(a, b) == a[1] * b[2] - a[2] * b[1]
Minus(p, q) == << p[1] - q[1], p[2] - q[2] >>

\* what is left of u (on the axis of the grid) without v: the runs of its cells that v does not have
Cells(u) == LET a == IF u[1][1] < u[2][1] THEN u[1][1] ELSE u[2][1]
                b == IF u[1][1] < u[2][1] THEN u[2][1] ELSE u[1][1]
            IN a..(b - 1)
Left(u, v) == Cells(u) \ (IF v[1][2] = 0 /\ v[2][2] = 0 THEN Cells(v) ELSE {})
Runs(C) == { <<a, b>> \in C \X { x + 1 : x \in C } : a < b /\ (a..(b-1)) \subseteq C /\ (a - 1) \notin C /\ b \notin C }
CDiff(ev) ==
  LET runs == Runs(Left(ev.u, ev.v))
      is(x, r) == SameSeg(x, Image(ev.f, << r[1], 0 >>), Image(ev.f, << r[2], 0 >>))
      ok == /\ Len(ev.o) = Cardinality(runs)
            /\ \A r \in runs : \E i \in 1..Len(ev.o) : is(ev.o[i], r)
  IN << K(CASE runs = {} -> "P25.nothing" [] Cardinality(runs) = 2 -> "P25.split"
            [] Left(ev.u, ev.v) = Cells(ev.u) -> "P25.untouched" [] OTHER -> "P25.trimmed", 1, IF ok THEN {} ELSE { <<ev.u, ev.v>> }) >>

Between(x, a, b) == (a <= x /\ x <= b) \/ (b <= x /\ x <= a)
OnLine(p, u) == /\ Cross(Minus(u[2], u[1]), Minus(p, u[1])) = 0
                /\ Between(p[1], u[1][1], u[2][1]) /\ Between(p[2], u[1][2], u[2][2])
CHas(ev) == << K("P25.contains", 1, IF ev.is = (IF OnLine(ev.p, ev.u) /\ ev.off < 10 THEN 1 ELSE 0) THEN {} ELSE { ev.off }) >>

\* p + a d = u1 + t (u2 - u1)  =>  t = ((p - u1) x d) / ((u2 - u1) x d)
CProj(ev) ==
  LET e == Minus(ev.u[2], ev.u[1])
      D == Cross(e, ev.d)
      T == Cross(Minus(ev.p, ev.u[1]), ev.d)
      \* in units of D > 0
      t == IF D < 0 THEN 0 - T ELSE T
      m == IF D < 0 THEN 0 - D ELSE D
      at == << ev.u[1][1] (+) (RMul(e[1], T) (/) D), ev.u[1][2] (+) (RMul(e[2], T) (/) D) >>
      ok == CASE D = 0 -> ev.x = <<>>
              [] ev.must = 1 /\ (t < 0 \/ t > m) -> ev.x = <<>>
              \* exactly at an end: rounding says
              [] ev.must = 1 /\ t \in {0, m} /\ ev.x = <<>> -> TRUE
              [] OTHER -> Len(ev.x) = 2 /\ SamePt(ev.x[1], ev.x[2], Image(ev.f, at))
  IN << K(IF D = 0 THEN "P25.parallel" ELSE IF ev.must = 1 THEN IF t < 0 \/ t > m THEN "P25.missed" ELSE "P25.met" ELSE "P25.projected",
          1, IF ok THEN {} ELSE { <<ev.p, ev.d, ev.u>> }) >>

\* surfaces that point in parallel directions, and those that do not.
\* ans: <<is_collinear, check passes, a collection can be made, it is collinear, has a normal,
\*      a side can be made, a segment can be made, the side has a normal>>, -1 not applicable, 2 some other error than the proper one
Parallels(ev) ==
  LET real == { i \in 1..Len(ev.d) : ev.d[i] # <<0, 0>> }
      par == \A i, j \in real : Cross(ev.d[i], ev.d[j]) = 0
      even == \A i, j \in 1..Len(ev.sh) : ev.sh[i] = ev.sh[j]
      B(x) == IF x THEN 1 ELSE 0
      some == B(par /\ real # {})
  IN << B(par), B(par), B(even), IF even THEN B(par) ELSE -1, IF even THEN some ELSE -1, B(par), B(par), IF par THEN some ELSE -1 >>
CSame(ev) ==
  LET x == Parallels(ev) IN
  << K(IF x[1] = 1 THEN "P25.alike" ELSE "P25.apart", 1, { i \in 1..Len(x) : i > Len(ev.ans) \/ ev.ans[i] # x[i] }) >>

\* a line that moves in time: seen: seq over timesteps of
\* [l: length, m: middle, hi, lo: ends, a: the line at the instant, un: along, gone: not there, v: its value]
CLine(ev) ==
  LET P(p) == << RDec(p[1], 8), RDec(p[2], 8) >>
      bad(i) == LET x == ev.seen[i]  p == ev.u[i][1]  q == ev.u[i][2]
                    hi == IF p[2] >= q[2] THEN p ELSE q
                    lo == IF p[2] >= q[2] THEN q ELSE p
                IN \/ ~Near(x.l, Dist(P(p), P(q)))
                   \/ ~SamePt(x.m[1], x.m[2], << RDec(p[1] + q[1], 16), RDec(p[2] + q[2], 16) >>)
                   \/ ~SamePt(x.hi[1], x.hi[2], P(hi)) \/ ~SamePt(x.lo[1], x.lo[2], P(lo))
                   \/ ~(SamePt(x.a[1], x.a[2], P(p)) /\ SamePt(x.a[3], x.a[4], P(q)))
                   \/ x.gone # (IF p = q THEN 1 ELSE 0)
                   \/ (p # q /\ x.v # ev.v[i])
                   \/ (p # q /\ ~SamePt(x.un[1], x.un[2], << P(q)[1] (-) P(p)[1], P(q)[2] (-) P(p)[2] >>))
      none == \A i \in 1..Len(ev.u) : ev.u[i][1] = ev.u[i][2]
  IN << K("P25.line", Len(ev.u), IF Len(ev.seen) # Len(ev.u) THEN { Len(ev.seen) } ELSE { i \in 1..Len(ev.u) : bad(i) }),
        K("P25.never", 1, IF ev.none = (IF none THEN 1 ELSE 0) THEN {} ELSE { "empty" }) >>

CPlane(ev) == CASE ev.g = "diff" -> CDiff(ev) [] ev.g = "has" -> CHas(ev) [] ev.g = "proj" -> CProj(ev)
                [] ev.g = "same" -> CSame(ev) [] OTHER -> CLine(ev)
=============================================================================
