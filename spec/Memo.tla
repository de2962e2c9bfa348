-------------------------------- MODULE Memo --------------------------------
(***************************************************************************)
(* Determinism across everything that must not matter.  An observation     *)
(* ("vector") of an engine at a timestep is a function of the layout, the  *)
(* models and that timestep's inputs alone -- expressed in the frame of    *)
(* the site -- and of which runs happened.  The first observation of each  *)
(* kind is remembered; every later one, whatever the series, position,     *)
(* history, input form, engine or process it came from, must equal it.     *)
(*                                                                         *)
(* v = [len: lengths of surfaces (canonical order), fit: everything that   *)
(*      is set by the fit, flat; full: per surface what a full run sets;   *)
(*      res: per surface incident irradiance terms; fast: per surface what *)
(*      only a fast run sets; F, A: view factor matrices by rows]          *)
(* or v = [ex: the example report, flat].                                  *)
(* memo = [keys: sequence of <<layout, models, inputs>>,                   *)
(*         vals: <<key number, kind, surface, frame>> -> values]           *)
(***************************************************************************)
EXTENDS Session, Clauses, SequencesExt

CanonLay(lay) == [lay EXCEPT !.axis = 0]
CanonIn(lay, in) == << in.z, Mod3600(in.a - lay.axis), in.t, Mod3600(in.s - lay.axis),
                       in.dni, in.dhi, in.ghi, in.alb, in.doy >>
CanonMod(mod) == << mod.kind, mod.rf, mod.rb, mod.tr, mod.sp, mod.hba, mod.ff, mod.fb, mod.vff, mod.vfb, mod.nsec >>
CanonLay2(lay) == << lay.gcr, lay.h, lay.w, lay.n, lay.cut >>
Key(en, t) == << CanonLay2(en.lay), CanonMod(en.mod), CanonIn(en.lay, en.rows[t]) >>
NoMemo == [keys |-> <<>>, vals |-> <<>>]

\* Meaningful instants: sun above the horizon, no missing data, no discrete tie.
Regular(lay, in) == /\ in.z < 895 /\ in.dni >= 0 /\ in.dhi >= 0
                    /\ ~Degenerate(lay, in)

\* Kinds of values available in state en
Parts(en, v) ==
  LET ids == SurfaceIds(en.lay)
      N == Len(ids)
      \* surfaces about to vanish: their averages are ill conditioned
      sane == { k \in 1..N : ~(E(9) \prec v.len[k] /\ v.len[k] \prec E(6)) }
      real == { k \in 1..N : E(6) \preceq v.len[k] }
      aoi == UsesAoi(en.mod)
  IN IF "ex" \in DOMAIN v THEN {<<"ex", 0>>} ELSE
     {<<"fit", 0>>, <<"len", 0>>}
     \cup (IF en.full THEN { <<"full", k>> : k \in sane } \cup { <<"F", k>> : k \in sane } \cup { <<"A", k>> : k \in sane } ELSE {})
     \cup { <<"res-" \o Writer(en, ids[k]), k>> : k \in { k \in real : Writer(en, ids[k]) # "none" } }
     \cup { <<"fast", k>> : k \in { k \in real : IsBack(ids[k]) /\ SegOf(ids[k]) \in en.fast } }
Value(v, p) == CASE p[1] = "fit" -> v.fit
                 [] p[1] = "len" -> v.len
                 [] p[1] = "ex" -> v.ex
                 [] p[1] = "full" -> v.full[p[2]]
                 [] p[1] = "F" -> v.F[p[2]]
                 [] p[1] = "A" -> v.A[p[2]]
                 [] p[1] = "fast" -> v.fast[p[2]]
                 [] OTHER -> v.res[p[2]]

KeyNo(memo, key) == LET S == { i \in 1..Len(memo.keys) : memo.keys[i] = key } IN
                    IF S = {} THEN Len(memo.keys) + 1 ELSE CHOOSE i \in S : TRUE
\* Framed(kd): kinds of values compared in the same frame only, unless Torn(surface): decided by rounding
MemoStep(memo, prop, en, t, v, Framed(_), Torn(_)) ==
  LET key == Key(en, t)
      ki == TLCEval(KeyNo(memo, key))
      ps == TLCEval(Parts(en, v))
      at(p) == << ki, p[1], p[2], IF Framed(p[1]) THEN en.lay.axis ELSE 0 >>
      seen == TLCEval({ p \in ps : at(p) \in DOMAIN memo.vals })
      kinds == { p[1] : p \in ps }
      bad == TLCEval({ p \in seen : ~(RMaxDiff(Value(v, p), memo.vals[at(p)]) \prec T7) /\ ~(Framed(p[1]) /\ Torn(p[2])) })
      clause(kd) == K(prop \o "." \o kd, Cardinality({ p \in seen : p[1] = kd }), { p[2] : p \in { p \in bad : p[1] = kd } })
      fresh == { at(p) : p \in ps \ seen }
  IN [ cs |-> LET ks == SetToSeq(kinds) IN [ i \in 1..Len(ks) |-> clause(ks[i]) ],
       memo |-> [ keys |-> IF ki > Len(memo.keys) THEN Append(memo.keys, key) ELSE memo.keys,
                  vals |-> TLCEval([ q \in fresh |-> Value(v, << q[2], q[3] >>) ]) @@ memo.vals ] ]

\* The example report: averages of what falls on the front and on the back of the second row, and of the part of it that
\* comes from the sky dome, against what was remembered of the surfaces.
ExampleStep(memo, prop, en, t, ex) ==
  LET key == Key(en, t)
      ki == TLCEval(KeyNo(memo, key))
      ids == SurfaceIds(en.lay)
      of(sd) == { k \in 1..Len(ids) : ids[k][1] = "pv" /\ ids[k][2] = 2 /\ ids[k][3] = sd }
      known == << ki, "len", 0, 0 >> \in DOMAIN memo.vals
      len == memo.vals[<< ki, "len", 0, 0 >>]
      live(sd) == { k \in of(sd) : E(6) \preceq len[k] }
      at(k) == << ki, "res-full", k, 0 >>
      told == known /\ \A k \in live(1) \cup live(2) : at(k) \in DOMAIN memo.vals
      sum(S, Of(_)) == RSum([k \in 1..Len(ids) |-> IF k \in S THEN Of(k) ELSE 0])
      mean(sd, c) == sum(live(sd), LAMBDA k : len[k] (.) memo.vals[at(k)][c]) (/) sum(live(sd), LAMBDA k : len[k])
  IN IF ~told THEN <<>>
     ELSE << On(prop \o ".example", 1..4, LAMBDA c : ~NearQ(ex[c], CASE c = 1 -> mean(1, 1) [] c = 2 -> mean(2, 1)
                                                                     [] c = 3 -> mean(1, 2) [] OTHER -> mean(2, 2))) >>
=============================================================================
