------------------------------ MODULE Drawing ------------------------------
(***************************************************************************)
(* P24: what is drawn is what is there.  An observation carries, besides   *)
(* `base',                                                                  *)
(* d: a drawing of the whole array, made as the options                    *)
(*    how = <<cut, merge, num>> say (cut the ground at the cut points;     *)
(*    merge overlapping shadows; write the numbers of the surfaces):       *)
(*    [lines: seq of [g: <<x1, y1, x2, y2>>, c: colour], dots: seq of      *)
(*     [p: <<x, y>>, c], texts: seq of [p: <<x, y>>, s: text],             *)
(*     xlim, ylim, eq: equal scales, lab: labels are there]                *)
(*    colours: 0 module lit, 1 module shaded, 2 ground lit, 3 ground       *)
(*    shaded, -1 none of them;                                             *)
(* parts: drawings of parts: seq of [on: <<kind, row, side, segment>> or   *)
(*    a surface, lines, texts].                                            *)
(***************************************************************************)
EXTENDS Clauses

\* what is to be seen of the ground: [p, q, c: colour, ix: numbers it may carry ({}: any)]
GroundPicture(w, ev, cut, merge) ==
  LET sc == w.sc  n == w.lay.n
      els(q) == SelectSeq(q, LAMBDA ab : E(8) \prec (ab[2] (-) ab[1]))
      dark == els(sc.gs)  lit == els(sc.gi)
      live(kd) == SetToSortSeq({ k \in 1..w.N : w.sfs[k].id[1] = kd /\ E(8) \prec ev.geo[k][5] }, LAMBDA a, b : a < b)
      flat(ab, c, ix) == [p |-> <<ab[1], 0>>, q |-> <<ab[2], 0>>, c |-> c, ix |-> ix]
      sf(k, c) == [p |-> w.sfs[k].p, q |-> w.sfs[k].q, c |-> c, ix |-> {ev.idx[k]}]
      one == merge = 1 /\ sc.merged /\ Len(dark) > 1
      whole == << dark[1][1], dark[Len(dark)][2] >>
      zone == els([z \in 1..(n+1) |-> LET g == ZoneOf(sc, whole, z) IN << g[1][1], g[2][1] >>])
      within(k, ab) == (ab[1] (-) E(7)) \preceq w.sfs[k].p[1] /\ w.sfs[k].q[1] \preceq (ab[2] (+) E(7))
      of(ab) == { ev.idx[k] : k \in { k \in 1..w.N : w.sfs[k].id[1] = "gs" /\ within(k, ab) } }
  IN IF cut = 0
     THEN [m \in 1..Len(lit) |-> flat(lit[m], 2, {})]
          \o (IF one THEN << flat(whole, 3, {}) >> ELSE [m \in 1..Len(dark) |-> flat(dark[m], 3, {})])
     ELSE LET gi == live("gi")  gs == live("gs") IN
          [m \in 1..Len(gi) |-> sf(gi[m], 2)]
          \o (IF one THEN [m \in 1..Len(zone) |-> flat(zone[m], 3, of(zone[m]))] ELSE [m \in 1..Len(gs) |-> sf(gs[m], 3)])
\* ... of the modules: surfaces for which Sel(id)
ModulePicture(w, ev, Sel(_)) ==
  LET ks == SetToSortSeq({ k \in 1..w.N : PV(w.sfs[k].id) /\ Sel(w.sfs[k].id) /\ E(8) \prec ev.geo[k][5] }, LAMBDA a, b : a < b)
  IN [m \in 1..Len(ks) |-> [p |-> w.sfs[ks[m]].p, q |-> w.sfs[ks[m]].q, c |-> w.sfs[ks[m]].id[5], ix |-> {ev.idx[ks[m]]}]]

IsLine(x, e) == x.c = e.c /\ SameSeg(x.g, e.p, e.q)
\* lines show pieces: each as often as it is there, and nothing else
Missing(lines, ps) == { m \in 1..Len(ps) :
   Cardinality({ j \in 1..Len(lines) : IsLine(lines[j], ps[m]) })
     # Cardinality({ i \in 1..Len(ps) : ps[i].c = ps[m].c /\ SameSeg(<<ps[i].p[1], ps[i].p[2], ps[i].q[1], ps[i].q[2]>>, ps[m].p, ps[m].q) }) }
Strange(lines, ps) == { j \in 1..Len(lines) : ~\E m \in 1..Len(ps) : IsLine(lines[j], ps[m]) }

CDraw(w, ev) ==
  LET sc == w.sc  n == w.lay.n
      cut == ev.how[1]  merge == ev.how[2]  num == ev.how[3]
      unclear == { k \in 1..w.N : E(10) \prec ev.geo[k][5] /\ ev.geo[k][5] \prec E(7) }
      els == SelectSeq(sc.gs, LAMBDA ab : E(8) \prec (ab[2] (-) ab[1]))
      \* a shadow boundary on a cut point: merging is undecided
      onCut == \E i \in 1..Len(els), j \in 1..n : \E m \in {1, 2} : RNear(els[i][m], sc.cut[j], E(6))
      gnd == TLCEval(GroundPicture(w, ev, cut, merge))
      mods == TLCEval(ModulePicture(w, ev, LAMBDA id : TRUE))
      all == TLCEval(mods \o gnd)
      d == ev.d
      gl == SelectSeq(d.lines, LAMBDA x : x.c \in {2, 3})
      ml == SelectSeq(d.lines, LAMBDA x : x.c \notin {2, 3})
      ends == { e \in [m : 1..Len(all), s : {1, 2}] : TRUE }
      endOf(e) == IF e.s = 1 THEN all[e.m].p ELSE all[e.m].q
      unmarked == { e \in ends : ~\E j \in 1..Len(d.dots) : SamePt(d.dots[j][1], d.dots[j][2], endOf(e)) }
      stray == { j \in 1..Len(d.dots) : ~\E e \in ends : SamePt(d.dots[j][1], d.dots[j][2], endOf(e)) }
      \* the number of a piece stands 20 cm off its middle, on the side it faces
      normal(m) == IF m > Len(mods) THEN <<0, 1>>
                   ELSE LET k == CHOOSE k \in 1..w.N : ev.idx[k] \in all[m].ix IN
                        IF w.sfs[k].id[3] = 1 THEN sc.nrm ELSE << RNeg(sc.nrm[1]), RNeg(sc.nrm[2]) >>
      unit(v) == LET h == RHyp(v[1], v[2]) IN << v[1] (/) h, v[2] (/) h >>
      place(m) == LET u == unit(normal(m)) IN
                  << ((all[m].p[1] (+) all[m].q[1]) (/) 2) (+) (RDec(2, 10) (.) u[1]),
                     ((all[m].p[2] (+) all[m].q[2]) (/) 2) (+) (RDec(2, 10) (.) u[2]) >>
      \* ... unless that is further than 50 m out
      numbered == { m \in 1..Len(all) : RAbs(place(m)[1]) \prec (50 (-) E(6)) }
      maybe == { m \in 1..Len(all) : ~((50 (+) E(6)) \prec RAbs(place(m)[1])) }
      says(x, m) == SamePt(x.p[1], x.p[2], place(m)) /\ (all[m].ix # {} => \E i \in all[m].ix : x.s = ToString(i))
      unsaid == { m \in numbered : ~\E j \in 1..Len(d.texts) : says(d.texts[j], m) }
      odd == { j \in 1..Len(d.texts) : ~\E m \in maybe : says(d.texts[j], m) }
      pitch == Pitch(w.lay)
      h == Height(w.lay)
      framed == /\ Near(d.xlim[1], RNeg(pitch (/) 2)) /\ Near(d.xlim[2], (n (-) RDec(1, 2)) (.) pitch)
                /\ Near(d.ylim[1], RNeg(h)) /\ Near(d.ylim[2], 2 (.) h)
                /\ d.eq = 1 /\ d.lab = 1
      sel(on, id) == CASE on[1] = "row" -> id[2] = on[2]
                       [] on[1] = "side" -> id[2] = on[2] /\ id[3] = on[3]
                       [] on[1] = "seg" -> id[2] = on[2] /\ id[3] = on[3] /\ id[4] = on[4]
                       [] OTHER -> FALSE
      lone(k) == IF E(8) \prec ev.geo[k][5]
                 THEN << [p |-> w.sfs[k].p, q |-> w.sfs[k].q, c |-> w.sfs[k].id[5] + (IF PV(w.sfs[k].id) THEN 0 ELSE 2)] >> ELSE <<>>
      partBad(x) == LET ps == TLCEval(IF x.on[1] = "gnd" THEN gnd
                                      ELSE IF x.on[1] = "sf" THEN lone(x.on[2])
                                      ELSE ModulePicture(w, ev, LAMBDA id : sel(x.on, id)))
                    IN Missing(x.lines, ps) # {} \/ Strange(x.lines, ps) # {}
  IN IF unclear # {} \/ (merge = 1 /\ cut = 1 /\ onCut) THEN << K("skip.points", 1, {}) >>
     ELSE << K("P24.modules", Len(mods), Missing(ml, mods) \cup Strange(ml, mods)),
             K(IF cut = 0 THEN "P24.ground" ELSE IF merge = 1 /\ sc.merged THEN "P24.ground_merged" ELSE "P24.ground_cut",
               Len(gnd), Missing(gl, gnd) \cup Strange(gl, gnd)),
             K("P24.ends", Cardinality(ends), unmarked),
             K("P24.marks", Len(d.dots), stray),
             K("P24.numbers", IF num = 0 THEN 0 ELSE Cardinality(numbered),
               IF num = 0 THEN IF Len(d.texts) = 0 THEN {} ELSE {"unasked"}
               ELSE IF unsaid # {} THEN unsaid ELSE IF odd # {} THEN odd
               ELSE IF Len(d.texts) > Cardinality(maybe) THEN {"more"} ELSE {}),
             K("P24.frame", 1, IF framed THEN {} ELSE {"frame"}),
             K("P24.parts", Len(ev.parts), { ev.parts[j].on : j \in { j \in 1..Len(ev.parts) : partBad(ev.parts[j]) } }) >>
=============================================================================
