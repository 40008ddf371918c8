------------------------------ MODULE MCFrame ------------------------------
(* Design model of frame changes: two phase-space points are carried from    *)
(* frame to frame, forwards, backwards and by composed changes.  `ref` are   *)
(* their ICRS values, fixed from the start.                                  *)
EXTENDS FrLib
VARIABLES f, es, ref, n
vars == <<f, es, ref, n>>
All == TLCEval(<<ICRS>> \o [i \in DOMAIN Frs |-> LET p == Frs[i] IN Gcf(p.lon, p.lat, p.d, p.roll, p.h, p.v)])
E(x, p) == [x |-> x, t |-> R0, p |-> p]
Starts == << <<E(ZV(1, 2, -1), ZV(1, 0, 1)), E(ZV(0, -2, 3), ZV(2, 1, 0))>>, <<E(VZero(3), VZero(3)), E(ZV(5, 0, 0), ZV(0, 10, 0))>> >>
MaxN == IF Thorough THEN 4 ELSE 3
On(o, s) == [i \in DOMAIN s |-> Act(o, s[i])]
Init == n = 0 /\ f = ICRS /\ \E k \in DOMAIN Starts : es = Starts[k] /\ ref = Starts[k]
Go(g) == f' = g /\ es' = On(FrOp(f, g), es)
GoBack(g) == f' = g /\ es' = On(InvOp(FrOp(g, f)), es)
GoVia(g) == f' = g /\ es' = On(PipeOf(<<FrOp(f, ICRS), IdOp, FrOp(ICRS, g)>>), es)
Next == n < MaxN /\ n' = n + 1 /\ UNCHANGED ref /\ \E i \in DOMAIN All : Go(All[i]) \/ GoBack(All[i]) \/ GoVia(All[i])
Spec == Init /\ [][Next]_vars
PathIndependent == \A i \in DOMAIN es : es[i].x = ToX(f, ref[i].x) /\ es[i].p = ToV(f, ref[i].p)
Rigid == /\ Norm2(VSub(es[1].x, es[2].x)) = Norm2(VSub(ref[1].x, ref[2].x))
         /\ Norm2(VSub(es[1].p, es[2].p)) = Norm2(VSub(ref[1].p, ref[2].p))
Centre == f.t = "gcf" => ToX(f, Decode("LonLatSphericalPos", <<f.lon, f.lat, f.d>>, R1)) = VZero(3)
Sun == f.t = "gcf" => ToX(f, VZero(3))[3] = FrZ(f) /\ ToV(f, VZero(3)) = f.v
Proper == f.t = "gcf" => Det3(FrA(f)) = R1
=============================================================================
