------------------------------- MODULE MCGeo -------------------------------
(* Design model of representation changes: a walker holds one vector and     *)
(* re-expresses it again and again.  TLC explores every chain over the       *)
(* exact lattice and checks that the point never moves, the components are  *)
(* canonical, and the Jacobians of the charts invert and compose.            *)
EXTENDS Lat
VARIABLES p0, cls, q, v
vars == <<p0, cls, q, v>>
C3s == Charts3 \ {"ProlateSpheroidalPos"}
Pro2 == ProAll(Z(2))
V0 == <<Z(1), Z(-2), Z(3)>>
MaxD == 13000   \* keeps products within 32 bits
SphInit == /\ \E i \in DOMAIN Pts3Full : p0 = Pts3Full[i]
           /\ \E c \in C3s : cls = c /\ q = Encode(c, p0, Z(2))
ProInit == /\ \E i \in DOMAIN Pro2 : p0 = Pro2[i]
           /\ \E c \in {"CartesianPos3D", "CylindricalPos", "ProlateSpheroidalPos"} :
                cls = c /\ q = Encode(c, p0, Z(2))
Init == (SphInit \/ ProInit) /\ v = V0
Exact(c) == CompsRat(c, Encode(c, p0, Z(2)))
Represent(c) == /\ Exact(c)
                /\ cls' = c
                /\ q' = Encode(c, Decode(cls, q, Z(2)), Z(2))
                /\ v' = IF Regular(cls, q, Z(2)) /\ Regular(c, q', Z(2))
                        THEN MVec(DecJac(c, q', Z(2)), MVec(EncJac(c, q', Z(2)), v)) ELSE v
                /\ UNCHANGED p0
Next == \E c \in Charts3 : Represent(c)
Spec == Init /\ [][Next]_vars

PointFixed == Decode(cls, q, Z(2)) = p0
PathIndependent == q = Encode(cls, p0, Z(2))
Canonical == Admissible(cls, q, Z(2)) /\ LET kd == Kinds(cls) IN \A i \in DOMAIN kd : CanonComp(kd[i], q[i], Z(2))
CartVelocityFixed == v = V0
JacobiansInvert == Regular(cls, q, Z(2)) => MMul(EncJac(cls, q, Z(2)), DecJac(cls, q, Z(2))) = MId(3)
=============================================================================
