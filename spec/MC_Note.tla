------------------------------- MODULE MC_Note -------------------------------
(***************************************************************************)
(* Three notes drawn from a small box, changed one attribute at a time:    *)
(* the order of notes is a total order compatible with equality, and each  *)
(* derivation changes one attribute only.                                  *)
(***************************************************************************)
EXTENDS Notes, TLC
Ps == {0, 1}
Ds == {<<0, 1>>, <<1, 4>>, <<2, 8>>, <<3, 8>>}
Vs == {<<0, 1>>, <<3, 4>>, <<1, 1>>}
Mk(p, d, v) == [p |-> IntOf(p), d |-> Canon(Frac(d[1], d[2])), v |-> Canon(Frac(v[1], v[2]))]
Box == {Mk(p, d, v) : p \in Ps, d \in Ds, v \in Vs}
VARIABLES x, y, z
Init == x \in Box /\ y \in Box /\ z = x
Transposed == \E k \in {-1, 1} : z.p.m # <<>> /\ z' = [z EXCEPT !.p = IAdd(@, IntOf(k))]
WithDuration == \E d \in Ds : z' = [z EXCEPT !.d = Canon(Frac(d[1], d[2]))]
WithVelocity == \E v \in Vs : z' = [z EXCEPT !.v = Canon(Frac(v[1], v[2]))]
Next == (Transposed \/ WithDuration \/ WithVelocity) /\ UNCHANGED <<x, y>> /\ IIsSmall(z'.p) /\ IToInt(z'.p) \in -2..3
Total == NoteCmp(x, y) = -NoteCmp(y, x)
Antisym == NoteCmp(x, y) = 0 <=> x = y
Transitive == (NoteCmp(x, y) <= 0 /\ NoteCmp(y, z) <= 0) => NoteCmp(x, z) <= 0
InRange == VelocityOk(z.v)
Inv == Total /\ Antisym /\ Transitive /\ InRange
OneAttribute == [][Cardinality({f \in {"p", "d", "v"} : z'[f] # z[f]}) <= 1]_<<x, y, z>>
Spec == Init /\ [][Next]_<<x, y, z>>
=============================================================================
