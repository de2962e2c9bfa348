-------------------------- MODULE MC_GroundZones --------------------------
(* All grounds with N shadows and M cut points at whole places -R..R.       *)
EXTENDS GroundZones
CONSTANTS N, M, R, G
VARIABLE x
Points == (-R)..R
Init == \E s \in [1..N -> Points \X Points], c \in [1..M -> Points], o \in BOOLEAN :
          /\ x = [sh |-> s, cut |-> c, ov |-> o]
          /\ WellFormed(x)
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Inv == Partition(x, G)
=============================================================================
