------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* The life of simulation engines: what a program using the library does   *)
(* (create, fit, run in full or fast mode, update parameters) and what     *)
(* every surface then carries.  This is the state machine to which traces  *)
(* recorded from the code are bound (Trace.tla), whose behaviours are      *)
(* replayed into the code (Gen.tla, MC_Session.tla), and whose design      *)
(* properties are checked exhaustively for small constants (MC_Session).   *)
(*                                                                         *)
(* eng[e] = [lay, mod    layout and irradiance model (opaque here)         *)
(*           fr, fs      fast-mode row / segment given at creation, -1:none*)
(*           rows        data of the last fit; <<>>: never fitted          *)
(*           nfit        how many fits so far                              *)
(*           full        a full run happened since the last fit            *)
(*           last        back segment <<row, seg>> -> which run wrote its  *)
(*                       incident irradiance: "none", "full" or "fast"     *)
(*           fast        back segments on which a fast run happened        *)
(*           upd         user parameter name -> surface id -> value ]      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE eng

BackSegs(lay) == UNION { { <<i, j>> : j \in 1..lay.cut[i][2] } : i \in 1..lay.n }
NoRun(lay) == [ s \in BackSegs(lay) |-> "none" ]

Names == DOMAIN eng
Fitted(e) == e \in Names /\ eng[e].rows # <<>>

(* An engine's state after ... *)
NewE(lay, mod, fr, fs) ==
  [ lay |-> lay, mod |-> mod, fr |-> fr, fs |-> fs, rows |-> <<>>, nfit |-> 0,
    full |-> FALSE, last |-> NoRun(lay), fast |-> {}, upd |-> <<>>, names |-> <<>> ]
\* ... a fit, which replaces everything every surface carried
FitE(s, rows) == [s EXCEPT !.rows = rows, !.nfit = @ + 1, !.full = FALSE,
                           !.last = NoRun(s.lay), !.fast = {}, !.upd = <<>>]
\* ... a full run
FullE(s) == [s EXCEPT !.full = TRUE, !.last = [b \in BackSegs(s.lay) |-> "full"]]
\* ... a fast run; indices given with the call (0-based, -1: not given) take precedence over
\* the engine's
FastTargetE(s, r, g) ==
  LET row == (IF r >= 0 THEN r ELSE s.fr) + 1
      seg == (IF g >= 0 THEN g ELSE s.fs) + 1
  IN IF row = 0 THEN {}
     ELSE IF seg = 0 THEN { b \in BackSegs(s.lay) : b[1] = row }
     ELSE { b \in BackSegs(s.lay) : b = <<row, seg>> }
FastE(s, r, g) == LET T == FastTargetE(s, r, g) IN
  [s EXCEPT !.last = [b \in DOMAIN @ |-> IF b \in T THEN "fast" ELSE @[b]], !.fast = @ \cup T]
\* The parts of an array a parameter can be set on: <<kind, row or element, side, segment, shaded>>.
\* Besides its surfaces, the ground and each of its elements carry parameters of their own:
\* <<"gp", 0, 0, 0, shaded>> and <<"ge", element, 0, 0, shaded>>.
GroundOwn(lay, sh) == { <<"gp", 0, 0, 0, sh>> } \cup { <<"ge", j, 0, 0, sh>> : j \in 1..(lay.n + 1 - sh) }
Covers(tg, id) ==
  LET pv == id[1] = "pv" IN
  CASE tg[1] = "all"  -> TRUE
    [] tg[1] = "gnd"  -> ~pv
    [] tg[1] = "gill" -> ~pv /\ id[5] = 0
    [] tg[1] = "gsh"  -> ~pv /\ id[5] = 1
    [] tg[1] = "gcol" -> id[1] \in {"gs", "gi"} /\ id[5] = tg[5]
    [] tg[1] = "gel"  -> id[1] \in {"gs", "gi"} /\ id[5] = tg[5] /\ id[2] = tg[2]
    [] tg[1] \in {"gs", "gi"} -> id[1] = tg[1] /\ id[2] = tg[2] /\ id[3] = tg[3]
    [] tg[1] = "row"  -> pv /\ id[2] = tg[2]
    [] tg[1] = "side" -> pv /\ id[2] = tg[2] /\ id[3] = tg[3]
    [] tg[1] = "seg"  -> pv /\ id[2] = tg[2] /\ id[3] = tg[3] /\ id[4] = tg[4]
    [] tg[1] \in {"col", "surf"} -> pv /\ id[2] = tg[2] /\ id[3] = tg[3] /\ id[4] = tg[4] /\ id[5] = tg[5]
\* ... setting user parameter `name` to v on the surfaces ids
UpdE(s, name, ids, v) ==
  LET old == IF name \in DOMAIN s.upd THEN s.upd[name] ELSE <<>>
      new == [ i \in ids |-> v ] @@ old
  IN [s EXCEPT !.upd = (name :> new) @@ @]
\* the functional interface (serial or parallel): a new engine, fitted and run once
RunE(lay, mod, rows, fr, fs) ==
  LET s == FitE(NewE(lay, mod, fr, fs), rows) IN IF fr >= 0 THEN FastE(s, -1, -1) ELSE FullE(s)

---------------------------------------------------------------------------
(* Actions.                                                                 *)
NewEng(e, lay, mod, fr, fs) == eng' = (e :> NewE(lay, mod, fr, fs)) @@ eng
\* ... of an array whose surfaces have named parameters
NewEngWith(e, lay, mod, fr, fs, names) == eng' = (e :> [NewE(lay, mod, fr, fs) EXCEPT !.names = names]) @@ eng
FitEng(e, rows) == e \in Names /\ eng' = [eng EXCEPT ![e] = FitE(@, rows)]
FullRun(e) == Fitted(e) /\ eng' = [eng EXCEPT ![e] = FullE(@)]
FastRun(e, r, s) == /\ Fitted(e)
                    /\ FastTargetE(eng[e], r, s) # {}
                    /\ eng' = [eng EXCEPT ![e] = FastE(@, r, s)]
Update(e, name, ids, v) == Fitted(e) /\ eng' = [eng EXCEPT ![e] = UpdE(@, name, ids, v)]

---------------------------------------------------------------------------
(* What a surface carries besides the terms set by the fit.                 *)
ResultNames == {"q0", "qinc", "isotropic", "reflection", "qabs", "view_factors"}
IsBack(id) == id[1] = "pv" /\ id[3] = 2
SegOf(id) == << id[2], id[4] >>
Carried(en, id) ==
  (IF en.full THEN {"q0", "qinc", "isotropic", "reflection", "qabs"} ELSE {})
  \cup (IF IsBack(id) /\ SegOf(id) \in en.fast
        THEN {"qinc", "isotropic", "reflection", "view_factors"} ELSE {})
\* who wrote the incident irradiance of surface id: "none", "full", "fast"
Writer(en, id) == IF IsBack(id) THEN en.last[SegOf(id)] ELSE IF en.full THEN "full" ELSE "none"

TypeOK == \A e \in Names : /\ eng[e].nfit >= 0
                           /\ eng[e].fast \subseteq BackSegs(eng[e].lay)
                           /\ eng[e].full \in BOOLEAN
\* design properties, checked exhaustively by MC_Session
NothingBeforeFit == \A e \in Names : eng[e].rows = <<>> =>
    ~eng[e].full /\ eng[e].fast = {} /\ eng[e].upd = <<>> /\ \A b \in DOMAIN eng[e].last : eng[e].last[b] = "none"
WriterRan == \A e \in Names : \A b \in DOMAIN eng[e].last :
    /\ eng[e].last[b] = "full" => eng[e].full
    /\ eng[e].last[b] = "fast" => b \in eng[e].fast
    /\ eng[e].last[b] = "none" => ~eng[e].full /\ b \notin eng[e].fast
=============================================================================
