------------------------------ MODULE MCAstro ------------------------------
(* Design model of the exchange with astropy: a walker carries a position and *)
(* a velocity through both libraries, changing class in either, and crossing  *)
(* over and back.  The physical state never changes and the class is always  *)
(* the one asked for.                                                        *)
EXTENDS Lat, IOUtils
VARIABLES q, v, n, ref, asked
vars == <<q, v, n, ref, asked>>
P4 == <<"CartesianPos3D", "CylindricalPos", "SphericalPos", "LonLatSphericalPos">>
V5 == <<"CartesianVel3D", "CylindricalVel", "SphericalVel", "LonLatSphericalVel", "LonCosLatSphericalVel">>
P2 == << Decode("SphericalPos", <<Z(5), A(4,5,3,5), A(3,5,4,5)>>, R1), Decode("SphericalPos", <<Z(2), A(-3,5,4,5), A(-4,5,3,5)>>, R1) >>
V2 == << <<Z(1), Z(-2), Z(2)>>, <<Z(-4), Z(4), Z(7)>> >>
Val(x) == IF x.k = "ap" THEN x.of ELSE x
Phys(a, b) == LET p == Val(a) w == Val(b) IN [i \in DOMAIN p.pts |-> <<p.pts[i], ToCart(w.cls, w.cmp[i], p.pts[i], R1)>>]
Q0 == Pos("CartesianPos3D", <<2>>, P2, R1)
V0 == Dif("vel", "CartesianVel3D", <<2>>, V2, V2, R1)
Init == q = Q0 /\ v = V0 /\ n = 0 /\ ref = Phys(Q0, V0) /\ asked = "CartesianPos3D"
MaxN == IF IOEnv.TIER = "thorough" THEN 6 ELSE 4
E2(x) == [x |-> x, y |-> q]
Next == n < MaxN /\ n' = n + 1 /\ UNCHANGED ref
        /\ \/ q.k = "pos" /\ (\E c \in Range(P4) : asked' = c /\ q' \in {EvalRep([cls |-> c], q), EvalToap([to |-> c], q)}) /\ UNCHANGED v
           \/ q.k = "ap" /\ (\E c \in Range(P4) : asked' = c /\ q' \in {EvalAprep([a |-> <<"x">>, cls |-> c], E2(q)), EvalFromap([cls |-> c], q)}) /\ UNCHANGED v
           \/ v.k = "vel" /\ v' \in {EvalToap([to |-> "Base"], v), EvalToap([to |-> v.cls], v)} \cup {EvalRepDif([cls |-> c], v, Val(q)) : c \in Range(V5)} /\ UNCHANGED <<q, asked>>
           \/ v.k = "ap" /\ v' \in {EvalFromap([cls |-> "AbstractVel3D"], v), EvalFromap([cls |-> v.of.cls], v)}
                                   \cup {EvalAprep([a |-> <<"x", "y">>, cls |-> c], [x |-> v, y |-> Ap(Val(q))]) : c \in Range(V5)} /\ UNCHANGED <<q, asked>>
Spec == Init /\ [][Next]_vars
SameState == Phys(q, v) = ref
AsAsked == IF q.k = "ap" THEN q.cls = ApOf(asked) /\ q.of.cls = asked ELSE q.cls = asked
\* a velocity never changes class on the way over
Refused == v.k = "vel" => \A c \in Range(V5) \ {v.cls} : EvalToap([to |-> c], v) = Err /\ EvalFromap([cls |-> c], Ap(v)) = Err
=============================================================================
