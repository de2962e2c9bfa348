------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Binds traces recorded from the code to the specification: every event   *)
(* must be an action of module Session enabled in the current state, and   *)
(* every observation must satisfy the clauses of the property under check  *)
(* in the world the specification predicts for that state.                 *)
(***************************************************************************)
EXTENDS Memo, StaticClauses, Halo, SkyAlone, GroundClauses, Drawing, Planar, Json, IOUtils

Prop == IOEnv.PROP
Log  == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* next event
          sid,    \* current scenario
          geom,   \* static geometries (modules StaticGeom, StaticClauses)
          memo,   \* what was observed so far in this scenario (module Memo)
          bad,    \* violations <<scenario, event, clause, where>>
          cnt     \* clause -> number of instances judged
vars == << eng, geom, l, sid, memo, bad, cnt >>

Init == /\ eng = <<>> /\ geom = <<>> /\ l = 1 /\ sid = 0 /\ memo = NoMemo /\ bad = <<>> /\ cnt = <<>>

Ev == Log[l]

---------------------------------------------------------------------------
\* the world of engine e at timestep t (1-based)
WorldAt(e, t) == World(eng[e].lay, eng[e].mod, eng[e].rows[t])

\* everything a parameter can be set on, and the value it was last given there (<<>>: none)
Places(lay) == { SurfaceIds(lay)[k] : k \in 1..NSurfaces(lay) } \cup GroundOwn(lay, 0) \cup GroundOwn(lay, 1)
Targeted(lay, tg) == { id \in Places(lay) : Covers(tg, id) }
CarriedValue(en, nm, id, t) ==
  IF nm \in DOMAIN en.upd /\ id \in DOMAIN en.upd[nm]
  THEN LET v == en.upd[nm][id] IN << RDec(v[1] + v[2] * (t - 1), 1) >> ELSE <<>>
\* a surface carries exactly what the runs since the last fit put there
Fresh(w, ev, en) == << OnS(Prop \o ".results", w, 1..w.N, LAMBDA k :
      { ev.has[k][j] : j \in 1..Len(ev.has[k]) } # Carried(en, w.sfs[k].id)) >>
FreshIds(ev, en) ==
  LET ids == SurfaceIds(en.lay) IN
  << K(Prop \o ".results", Len(ids), { k \in 1..Len(ids) :
        { ev.has[k][j] : j \in 1..Len(ev.has[k]) } # Carried(en, ids[k]) }) >>
\* modules turned exactly upside down: reported under names of their own
Apart(in, cs) == IF in.t # 1800 THEN cs ELSE [ i \in 1..Len(cs) |-> [cs[i] EXCEPT !.c = @ \o ".upside_down"] ]
Judge(ev) ==
  LET en == eng[ev.e]
      in == en.rows[ev.t]
      w == TLCEval(WorldAt(ev.e, ev.t))
      lastFast(id) == Writer(en, id) = "fast"
      everFast(id) == IsBack(id) /\ SegOf(id) \in en.fast
      skyOK == SkyDefined(en.mod, in)
  IN IF Degenerate(en.lay, in) THEN << K("skip.degenerate", 1, {}) >>
     ELSE CASE Prop = "P01" -> CIds(w, ev) \o CRows(w, ev)
            [] Prop = "P02" -> CShade(w, ev)
            [] Prop = "P03" -> CShadow(w, ev)
            [] Prop = "P04" -> CGround(w, ev)
            [] Prop = "P05" -> Apart(in, CVF(w, ev))
            [] Prop = "P06" -> Apart(in, CEnergy(w, ev))
            [] Prop = "P09" -> IF ~skyOK THEN << K("skip.sky", 1, {}) >> ELSE CSky(w, ev)
            [] Prop = "P07" -> IF ~skyOK THEN << K("skip.sky", 1, {}) >> ELSE CEquilibrium(w, ev)
            [] Prop = "P08" -> IF ~skyOK THEN << K("skip.sky", 1, {}) >> ELSE CAbsorbed(w, ev)
            [] Prop = "P10" -> Fresh(w, ev, en) \o
                               (IF ~skyOK THEN << K("skip.sky", 1, {}) >> ELSE CFast(w, ev, lastFast, everFast))
            [] Prop = "P11" -> CRho(w, ev)
            [] Prop = "P17" -> CAgg(w, ev, {"u1", "u2"}, LAMBDA nm, id : CarriedValue(en, nm, id, ev.t), Covers)
            [] Prop = "P19" -> CIds(w, ev) \o CLinks(w, ev, skyOK, Regular(en.lay, in), LAMBDA id : Writer(en, id) = "full")
            [] Prop = "P16" -> CIds(w, ev) \o CSnap(w, ev, en.names)
            [] Prop = "P24" -> CDraw(w, ev)
            [] OTHER -> << >>

\* observations judged against earlier ones
MemoProps == {"P12", "P13", "P14", "P15", "P20", "P21"}
Never(kd) == FALSE
\* a wedge edge of surface k on the boundary of two sections
Torn(lay, mod, in, k) ==
  LET w == World(lay, mod, in) IN
  /\ PV(w.sfs[k].id)
  /\ LET r == AoiRow(w, k, SecVals(IF w.sfs[k].id[3] = 1 THEN mod.vff ELSE mod.vfb, mod.nsec)) IN
     \E j \in 1..Len(r) : r[j][1] \prec r[j][2]
Remembered(ev) ==
  LET en == eng[ev.e] IN
  IF ~Regular(en.lay, en.rows[ev.t]) THEN [cs |-> << K("skip.irregular", 1, {}) >>, memo |-> memo]
  ELSE LET \* sections of the loss integrals fall differently on wedge edges in another frame
           framed(kd) == Prop = "P15" /\ UsesAoi(en.mod) /\ kd \in {"A", "full"}
           m == MemoStep(memo, Prop, en, ev.t, ev.v, framed, LAMBDA k : Torn(en.lay, en.mod, en.rows[ev.t], k))
       IN [cs |-> m.cs \o (IF "has" \in DOMAIN ev THEN FreshIds(ev, en) ELSE <<>>), memo |-> m.memo]

\* an array fitted on its own: its geometry
Placed(ev) ==
  LET en == eng[ev.e]
      w == TLCEval(WorldAt(ev.e, ev.t))
      cs == CIds(w, ev) \o CRows(w, ev) \o CShade(w, ev) \o CShadow(w, ev) \o CGround(w, ev)
  IN IF Degenerate(en.lay, en.rows[ev.t]) THEN << K("skip.degenerate", 1, {}) >>
     ELSE [ i \in 1..Len(cs) |-> [cs[i] EXCEPT !.c = Prop \o ".geometry"] ]
\* the numbers of the surfaces of a layout: those seen first
Numbered(ev) ==
  LET lay == eng[ev.e].lay
      S == { i \in 1..Len(memo.keys) : memo.keys[i] = lay }
  IN IF S = {} THEN [ cs |-> <<>>, memo |-> [keys |-> Append(memo.keys, lay), vals |-> (Len(memo.keys) + 1 :> ev.idx) @@ memo.vals] ]
     ELSE [ cs |-> << K("P19.stable", Len(ev.idx), IF memo.vals[CHOOSE i \in S : TRUE] = ev.idx THEN {} ELSE {"renumbered"}) >>, memo |-> memo ]
\* a run of the functional interface: every timestep of its report
RECURSIVE Reported(_, _, _, _, _)
Reported(en, rep, t, m, cs) ==
  IF t > Len(rep) THEN [cs |-> cs, memo |-> m]
  ELSE IF ~Regular(en.lay, en.rows[t]) THEN Reported(en, rep, t+1, m, cs \o << K("skip.irregular", 1, {}) >>)
  ELSE LET s == TLCEval(MemoStep(m, Prop, en, t, rep[t], Never, Never)) IN
       Reported(en, rep, t+1, s.memo, cs \o s.cs \o (IF "has" \in DOMAIN rep[t] THEN FreshIds(rep[t], en) ELSE <<>>))
RunJudge(ev) ==
  LET en == RunE(ev.lay, ev.mod, ev.rows, ev.fr, ev.fs)
      right == Len(ev.rep) = Len(ev.rows)
      r == IF right THEN Reported(en, ev.rep, 1, memo, <<>>) ELSE [cs |-> <<>>, memo |-> memo]
      \* the classes asked for are those that did the work
      who == { t \in 1..Len(ev.rep) : "own" \in DOMAIN ev.rep[t] /\ ev.rep[t].own # ev.own }
      ex == TLCEval(IF right THEN { t \in 1..Len(ev.rep) : "ex" \in DOMAIN ev.rep[t] /\ Regular(en.lay, en.rows[t]) } ELSE {})
      seen == FoldLeft(LAMBDA a, t : IF t \in ex THEN a \o ExampleStep(r.memo, Prop, en, t, ev.rep[t].ex) ELSE a, <<>>,
                       [t \in 1..Len(ev.rep) |-> t])
  IN [cs |-> << K(Prop \o ".count", 1, IF right THEN {} ELSE { Len(ev.rep) }), K(Prop \o ".classes", Len(ev.rep), who) >> \o r.cs \o seen,
      memo |-> r.memo]

\* two engines looking at the same site from opposite ends of the axis
Mirrored(lay) == [lay EXCEPT !.axis = Mod3600(@ + 1800), !.cut = [i \in 1..lay.n |-> lay.cut[lay.n + 1 - i]]]
MirrorId(lay, id) == << "pv", lay.n + 1 - id[2], id[3], lay.cut[id[2]][id[3]] + 1 - id[4], id[5] >>
PairJudge(ev) ==
  LET ea == eng[ev.e]  eb == eng[ev.f]
      in == ea.rows[ev.t]
      ids == SurfaceIds(ea.lay)
      pv == { k \in 1..Len(ids) : PV(ids[k]) }
      to == TLCEval([ k \in pv |-> IndexOfId(eb.lay, MirrorId(ea.lay, ids[k])) ])
      va == ev.v  vb == ev.w
      live == { k \in pv : E(6) \prec va.len[k] }
      aoi == UsesAoi(ea.mod)
      one == ea.lay.n = 1
      \* rows in each other's shadow: which of the overlapping ground shadows gives way goes by the order of the
      \* rows, so that the two images have the ground in pieces of other sizes, and each piece has one radiosity
      pieces == one \/ ~Scene(ea.lay, in).merged
      \* the modelled ground ends 100 m from the first row, so that only a single row sees a symmetric
      \* scene: otherwise, what lies beyond the nearest end matters by its view factor
      extent == RMul(ea.lay.n - 1, Pitch(ea.lay))
      beyond == (Height(ea.lay) (+) Width(ea.lay)) (/) RMax(1, 100 (-) extent)
      \* ... and the brightest light there is (with the sun near the horizon, far more than the weather says)
      most(v) == FoldLeft(LAMBDA a, k : IF E(6) \prec v.len[k] /\ v.res[k] # <<>> THEN FoldLeft(LAMBDA b, x : RMax(b, RAbs(x)), a, v.res[k]) ELSE a,
                          0, [k \in 1..Len(ids) |-> k])
      light == RMax(RSum(<< RDec(in.dni, 1), RDec(in.dhi, 1), RMax(0, in.ghi) >>), RMax(most(va), most(vb)))
      tol == IF one THEN E(6) ELSE E(6) (+) (beyond (.) light (.) 2)
      off(x, y) == IF one THEN RAbs(x (-) y) (/) RMax(1, RMax(RAbs(x), RAbs(y))) ELSE RAbs(x (-) y)
      apart(a, b) == \E j \in 1..Len(a) : tol \prec off(a[j], b[j])
  IN IF eb.lay # Mirrored(ea.lay) \/ eb.rows[ev.t] # in \/ eb.mod # ea.mod \/ ~Regular(ea.lay, in)
        \/ ~(extent \prec 70)
     THEN << K("skip.irregular", 1, {}) >>
     ELSE << K(Prop \o ".mirror_length", Cardinality(pv), { ids[k] : k \in { k \in pv : ~Near(va.len[k], vb.len[to[k]]) } }),
             K(Prop \o (IF one THEN ".mirror" ELSE ".mirror_edge"), IF pieces THEN Cardinality(live) ELSE 0,
               { ids[k] : k \in { k \in live : pieces /\ apart(va.res[k], vb.res[to[k]]) } }),
             K(Prop \o ".mirror_full", IF aoi \/ ~pieces THEN 0 ELSE Cardinality(live),
               { ids[k] : k \in { k \in live : ~aoi /\ pieces /\ apart(va.full[k], vb.full[to[k]]) } }) >>

\* the caller's objects are as they were
CleanCs(ev) == IF Prop = "P20" /\ "clean" \in DOMAIN ev THEN << K(Prop \o ".inputs", 1, IF ev.clean = 1 THEN {} ELSE {ev.op}) >> ELSE <<>>

---------------------------------------------------------------------------
Count(cs) == [ c \in { cs[i].c : i \in 1..Len(cs) } |->
                 FoldLeft(LAMBDA a, x : IF x.c = c THEN a + x.n ELSE a, 0, cs) ]
Merge(f, g) == [ c \in DOMAIN f \cup DOMAIN g |->
                 (IF c \in DOMAIN f THEN f[c] ELSE 0) + (IF c \in DOMAIN g THEN g[c] ELSE 0) ]
Failing(cs) == SelectSeq(cs, LAMBDA r : r.b # {})
Report(cs, ev) == LET f == Failing(cs) IN
  [i \in 1..Len(f) |-> [ sid |-> sid, ev |-> l, c |-> f[i].c, where |-> ToString(f[i].b) ]]
Cap(b) == IF Len(b) > 200 THEN SubSeq(b, 1, 200) ELSE b
Verdict(cs, ev) == /\ bad' = Cap(bad \o Report(cs, ev))
                   /\ cnt' = TLCEval(Merge(cnt, Count(cs)))

Bound(ev) ==
  CASE ev.op = "new" -> NewEngWith(ev.e, ev.lay, ev.mod, ev.fr, ev.fs, IF "pn" \in DOMAIN ev THEN ev.pn ELSE <<>>)
    [] ev.op = "fit" -> FitEng(ev.e, ev.rows)
    [] ev.op = "full" -> FullRun(ev.e)
    [] ev.op = "fast" -> FastRun(ev.e, ev.r, ev.s)
    [] ev.op = "upd" -> Update(ev.e, ev.name, Targeted(eng[ev.e].lay, ev.tg), <<ev.v, ev.st>>)
    [] OTHER -> FALSE

Next ==
  \/ /\ l <= Len(Log)
     /\ \/ /\ Ev.op = "scen" /\ eng' = <<>> /\ geom' = <<>> /\ memo' = NoMemo /\ sid' = Ev.sid /\ l' = l + 1 /\ UNCHANGED << bad, cnt >>
        \/ /\ Ev.op \in {"new", "fit", "full", "fast", "upd"}
           /\ Bound(Ev)
           /\ Verdict(CleanCs(Ev), Ev)
           /\ l' = l + 1 /\ UNCHANGED << geom, sid, memo >>
        \/ /\ Ev.op = "obs" /\ Prop \notin MemoProps
           /\ Fitted(Ev.e)
           /\ LET m == IF Prop = "P19" THEN TLCEval(Numbered(Ev)) ELSE [cs |-> <<>>, memo |-> memo]
                  cs == TLCEval(Judge(Ev) \o m.cs)
              IN Verdict(cs, Ev) /\ memo' = m.memo
           /\ l' = l + 1 /\ UNCHANGED << eng, geom, sid >>
        \/ /\ Ev.op = "obs" /\ Prop \in MemoProps
           /\ Fitted(Ev.e)
           /\ LET m == TLCEval(IF "geo" \in DOMAIN Ev THEN [cs |-> Placed(Ev), memo |-> memo] ELSE Remembered(Ev)) IN
              /\ Verdict(m.cs \o CleanCs(Ev), Ev)
              /\ memo' = m.memo
           /\ l' = l + 1 /\ UNCHANGED << eng, geom, sid >>
        \/ /\ Ev.op = "run"
           /\ LET m == TLCEval(RunJudge(Ev)) IN
              /\ Verdict(m.cs \o CleanCs(Ev), Ev)
              /\ memo' = m.memo
           /\ l' = l + 1 /\ UNCHANGED << eng, geom, sid >>
        \/ /\ Ev.op = "pair"
           /\ Fitted(Ev.e) /\ Fitted(Ev.f) /\ eng[Ev.e].full /\ eng[Ev.f].full
           /\ LET cs == TLCEval(PairJudge(Ev)) IN Verdict(cs, Ev)
           /\ l' = l + 1 /\ UNCHANGED << eng, geom, sid, memo >>
        \/ /\ Ev.op = "geom"
           /\ geom' = (Ev.e :> NewGeom(Ev)) @@ geom
           /\ LET cs == TLCEval(CStatic(geom'[Ev.e], Ev)) IN Verdict(cs, Ev)
           /\ l' = l + 1 /\ UNCHANGED << eng, sid, memo >>
        \/ /\ Ev.op = "gop"
           /\ Ev.e \in DOMAIN geom
           /\ geom' = [geom EXCEPT ![Ev.e] = GeomOp(@, Ev)]
           /\ LET cs == TLCEval(CStatic(geom'[Ev.e], Ev)) IN Verdict(cs, Ev)
           /\ l' = l + 1 /\ UNCHANGED << eng, sid, memo >>
        \/ /\ Ev.op = "ground"
           /\ LET cs == TLCEval(CGroundByHand(Ev)) IN Verdict(cs, Ev)
           /\ l' = l + 1 /\ UNCHANGED << eng, geom, sid, memo >>
        \/ /\ Ev.op = "hand"
           /\ LET cs == TLCEval(CHand(Ev)) IN Verdict(cs, Ev)
           /\ l' = l + 1 /\ UNCHANGED << eng, geom, sid, memo >>
        \/ /\ Ev.op = "loss"
           /\ LET cs == TLCEval(CLoss(Ev)) IN Verdict(cs, Ev)
           /\ l' = l + 1 /\ UNCHANGED << eng, geom, sid, memo >>
        \/ /\ Ev.op = "plane"
           /\ LET cs == TLCEval(CPlane(Ev)) IN Verdict(cs, Ev)
           /\ l' = l + 1 /\ UNCHANGED << eng, geom, sid, memo >>
        \/ /\ Ev.op \in {"halo", "band", "bell", "behind", "sky"}
           /\ LET cs == TLCEval(CASE Prop \notin {"P22", "P23"} -> CleanCs(Ev) [] Ev.op = "halo" -> CHalo(Ev) [] Ev.op = "band" -> CBand(Ev) [] Ev.op = "bell" -> CBell(Ev) [] Ev.op = "sky" -> CSkyAlone(Ev) [] OTHER -> CBehind(Ev)) IN Verdict(cs, Ev)
           /\ l' = l + 1 /\ UNCHANGED << eng, geom, sid, memo >>
        \/ /\ Ev.op = "raised"
           /\ bad' = Cap(Append(bad, [sid |-> sid, ev |-> l, c |-> Prop \o ".raised", where |-> Ev.during \o ": " \o Ev.err]))
           /\ l' = l + 1 /\ UNCHANGED << eng, geom, sid, memo, cnt >>
        \/ /\ Ev.op = "end"
           /\ l' = l + 1 /\ UNCHANGED << eng, geom, sid, memo, bad, cnt >>
           /\ JsonSerialize(IOEnv.OUT, [ events |-> l, bad |-> bad, cnt |-> cnt ])
TypeInv == TypeOK /\ NothingBeforeFit /\ WriterRan
=============================================================================
