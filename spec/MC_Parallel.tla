---------------------------- MODULE MC_Parallel ----------------------------
(***************************************************************************)
(* Design of the parallel runs: T timesteps are cut into P consecutive     *)
(* portions (of any lengths, some may be empty), which W workers take in   *)
(* order and finish in any order; partial reports are put back in order.   *)
(* Whatever the cuts and the order of completion, the report is that of a  *)
(* serial run.  P14 observes the code at the end of such behaviours.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxT, MaxP
VARIABLES T, P, cut, todo, busy, done, report
vars == << T, P, cut, todo, busy, done, report >>
Portion(k) == [ j \in 1..(cut[k+1] - cut[k]) |-> cut[k] + j ]
Init == /\ T \in 1..MaxT /\ P \in 1..MaxP
        /\ cut \in { c \in [ 1..(P+1) -> 0..T ] : c[1] = 0 /\ c[P+1] = T /\ \A k \in 1..P : c[k] <= c[k+1] }
        /\ todo = [ k \in 1..P |-> k ] /\ busy = {} /\ done = <<>> /\ report = <<>>
Take == /\ todo # <<>> /\ Cardinality(busy) < P
        /\ busy' = busy \cup { Head(todo) } /\ todo' = Tail(todo) /\ UNCHANGED << T, P, cut, done, report >>
Finish == \E k \in busy : /\ busy' = busy \ {k} /\ done' = Append(done, << k, Portion(k) >>)
                          /\ UNCHANGED << T, P, cut, todo, report >>
\* partial reports by number, whatever the order they came in
InOrder == [ k \in 1..P |-> (CHOOSE d \in { done[j] : j \in 1..Len(done) } : d[1] = k)[2] ]
RECURSIVE Joined(_, _)
Joined(s, k) == IF k = 0 THEN <<>> ELSE Joined(s, k - 1) \o s[k]
Merge == /\ Len(done) = P /\ report = <<>>
         /\ report' = Joined(InOrder, P) /\ UNCHANGED << T, P, cut, todo, busy, done >>
Next == Take \/ Finish \/ Merge
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Serial == [ t \in 1..T |-> t ]
Inv == /\ report \in { <<>>, Serial }
       /\ \A i, j \in 1..Len(done) : done[i][1] = done[j][1] => i = j
Finishes == <>(report = Serial)
=============================================================================
