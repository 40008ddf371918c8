------------------------------- MODULE MCFour -------------------------------
(* Design model of events: a walker holds two events and adds, subtracts,    *)
(* negates, scales, re-expresses and rewrites them as (ct, x, y, z) and back. *)
(* The interval stays a quadratic form of the events throughout.             *)
EXTENDS Lat, IOUtils
VARIABLES f, h, n, ref
vars == <<f, h, n, ref>>
P3 == << Decode("SphericalPos", <<Z(5), A(3,5,4,5), AngZero>>, R1), <<Z(1), Z(-2), Z(2)>>, VZero(3) >>
Ts == << Z(3), Z(5), R0, Z(-4) >>
Cs == <<"CartesianPos3D", "CylindricalPos", "SphericalPos", "LonLatSphericalPos", "MathSphericalPos">>
Ev1(t, p, c) == Fv(<<>>, <<t>>, <<>>, Pos(c, <<>>, <<p>>, R1), R1, 1)
Env == [f |-> f, h |-> h]
Do(g, s) == EvalArithFv([op |-> "arith", f |-> g, a |-> <<"f", "h">>, s |-> s], Env)
Itv(x) == Interval2(x)[1]
On(g, x) == EvalArithFv([op |-> "arith", f |-> g, a |-> <<"f", "h">>, s |-> Z(2)], [f |-> x, h |-> h])
Events == { Ev1(t, p, c) : t \in Range(Ts), p \in Range(P3), c \in {"CartesianPos3D", "SphericalPos"} }
Init == f \in Events /\ h \in { Ev1(Z(2), <<Z(2), R0, Z(1)>>, "CylindricalPos"), Ev1(R1, <<R1, R0, R0>>, "CartesianPos3D") } /\ n = 0 /\ ref = 0
MaxN == IF IOEnv.TIER = "thorough" THEN 4 ELSE 3
Step(x) == f' = x /\ h' = h
Small(x) == \A r \in {x.t[1], x.q.pts[1][1], x.q.pts[1][2], x.q.pts[1][3]} : Abs(r[1]) < 60 /\ r[2] < 60
Next == n < MaxN /\ n' = n + 1 /\ UNCHANGED ref
        /\ (\/ (Small(f) /\ Step(Do("add", R1))) \/ (Small(f) /\ Step(Do("sub", R1))) \/ Step(Do("neg", R1)) \/ (Small(f) /\ Step(Do("div", Z(2))))
            \/ \E c \in Range(Cs) : Step([f EXCEPT !.q = EvalRep([cls |-> c], f.q)])
            \/ Step(EvalFvFrom([a |-> <<"x">>, one |-> 1], [x |-> EvalFvGet([f |-> "q4"], f)]))
            \/ (f' = h /\ h' = f))
Spec == Init /\ [][Next]_vars
SumOfIntervals == RAdd(Itv(Do("add", R1)), Itv(Do("sub", R1))) = RMul(Z(2), RAdd(Itv(f), Itv(h)))
Reflected == Itv(Do("neg", R1)) = Itv(f)
Scaled == RMul(Z(4), Itv(Do("div", Z(2)))) = Itv(f)
TakenBack == LET g == [Do("add", R1) EXCEPT !.q.cls = f.q.cls]
                 b == EvalArithFv([op |-> "arith", f |-> "sub", a |-> <<"g", "h">>], [g |-> g, h |-> h])
             IN b.t = f.t /\ b.q.pts = f.q.pts
RotationKeepsInterval == LET M == MMul(RotZ(A(3,5,4,5)), RotX(Ang90))
                         IN Itv([f EXCEPT !.q.pts = <<MVec(M, f.q.pts[1])>>]) = Itv(f)
ArrayForm == LET g == EvalFvFrom([a |-> <<"x">>, one |-> 1], [x |-> EvalFvGet([f |-> "q4"], f)])
             IN g.t = f.t /\ g.q.pts = f.q.pts /\ Itv(g) = Itv(f)
NormSplits == LET w == Do("norm", R1).items
                  re == w[1].val[1]
                  im == w[2].val[1]
              IN (IsRat(re) /\ IsRat(im) /\ Itv(f) # R0) => RSub(RSqr(re), RSqr(im)) = Itv(f) /\ (re = R0 \/ im = R0)
=============================================================================
