----------------------------- MODULE MC_Session -----------------------------
(***************************************************************************)
(* Design check of Session: every history of at most Depth calls on two    *)
(* engines of a small layout.  What a surface carries is explained by the  *)
(* calls on its own engine since its last fit alone.                       *)
(***************************************************************************)
EXTENDS Session
CONSTANT Depth
VARIABLES d, since      \* calls made; per engine: calls since the last fit
Lay == [ n |-> 2, cut |-> << <<1, 2>>, <<1, 1>> >> ]
Ids == { <<"pv", i, sd, j, sh>> : i \in 1..2, sd \in 1..2, j \in 1..2, sh \in 0..1 }
Data == { <<"x">>, <<"y", "x">> }
Fasts == { <<0, -1>>, <<0, 1>>, <<1, 0>>, <<-1, -1>>, <<-1, 0>> }
Init == eng = <<>> /\ d = 0 /\ since = <<>>
Grow(e, op) == since' = [since EXCEPT ![e] = Append(@, op)]
Step ==
  \/ \E e \in {"a", "b"}, fr \in {-1, 0} : e \notin Names /\ NewEng(e, Lay, "m", fr, -1) /\ since' = (e :> <<>>) @@ since
  \/ \E e \in Names, rows \in Data : FitEng(e, rows) /\ since' = [since EXCEPT ![e] = <<>>]
  \/ \E e \in Names : FullRun(e) /\ Grow(e, <<"full", -1, -1>>)
  \/ \E e \in Names, f \in Fasts : FastRun(e, f[1], f[2]) /\ Grow(e, <<"fast", f[1], f[2]>>)
  \/ \E e \in Names, i \in { {<<"pv", 1, 2, 1, 0>>}, Ids } : Update(e, "u", i, d) /\ Grow(e, <<"upd", -1, -1>>)
Next == d < Depth /\ d' = d + 1 /\ Step
Spec == Init /\ [][Next]_<<eng, d, since>>
\* the engine that made only these calls, in this order
RECURSIVE Again(_, _, _)
Again(s, ops, m) == IF m = 0 THEN s
                    ELSE LET t == Again(s, ops, m - 1)  o == ops[m] IN
                         IF o[1] = "full" THEN FullE(t) ELSE IF o[1] = "fast" THEN FastE(t, o[2], o[3]) ELSE t
Alike(s, t) == s.rows = t.rows /\ s.full = t.full /\ s.last = t.last /\ s.fast = t.fast
Explained == \A e \in Names : LET s == eng[e] IN
  s.rows # <<>> => Alike(s, Again(FitE(NewE(s.lay, s.mod, s.fr, s.fs), s.rows), since[e], Len(since[e])))
\* running again changes nothing; a fit forgets everything
Idempotent == \A e \in Names : LET s == eng[e] IN
  s.rows # <<>> => /\ FullE(FullE(s)) = FullE(s)
                   /\ \A f \in Fasts : FastE(FastE(s, f[1], f[2]), f[1], f[2]) = FastE(s, f[1], f[2])
                   /\ \A r \in Data : LET t == FitE(s, r) IN Alike(t, FitE(NewE(s.lay, s.mod, s.fr, s.fs), r)) /\ t.upd = <<>>
\* a fast run leaves alone all but its targets and what a full run had written elsewhere
Scoped == \A e \in Names : LET s == eng[e] IN
  s.rows # <<>> => \A f \in Fasts : LET t == FastE(s, f[1], f[2]) IN
    \A id \in Ids : ~(IsBack(id) /\ SegOf(id) \in FastTargetE(s, f[1], f[2])) =>
      (SegOf(id) \in BackSegs(Lay) => Carried(t, id) = Carried(s, id) /\ Writer(t, id) = Writer(s, id))
Other == [][ \A e \in Names : (\E o \in DOMAIN eng' : o # e /\ (o \notin Names \/ eng'[o] # eng[o])) => eng'[e] = eng[e] ]_<<eng, d, since>>
Inv == TypeOK /\ NothingBeforeFit /\ WriterRan /\ Explained /\ Idempotent /\ Scoped
=============================================================================
