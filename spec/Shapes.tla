------------------------------- MODULE Shapes -------------------------------
(* Batched literals whose components are stored with their own broadcastable *)
(* shapes, for every vector class.                                          *)
EXTENDS Lat
AllPos == <<"CartesianPos1D", "RadialPos", "CartesianPos2D", "PolarPos", "TwoSpherePos", "CartesianPos3D", "CylindricalPos",
            "SphericalPos", "LonLatSphericalPos", "MathSphericalPos", "ProlateSpheroidalPos">>
AllVel == <<"CartesianVel1D", "RadialVel", "CartesianVel2D", "PolarVel", "CartesianVel3D", "CylindricalVel", "SphericalVel",
        "LonLatSphericalVel", "LonCosLatSphericalVel", "MathSphericalVel", "ProlateSpheroidalVel">>
AllAcc == <<"CartesianAcc1D", "RadialAcc", "CartesianAcc2D", "PolarAcc", "CartesianAcc3D", "CylindricalAcc", "SphericalAcc",
        "LonLatSphericalAcc", "MathSphericalAcc", "ProlateSpheroidalAcc">>
AllCls == AllPos \o AllVel \o AllAcc
AllND == <<"CartesianPosND", "CartesianVelND", "CartesianAccND">>
LatPool == <<A(4,5,3,5), <<<<4,5>>, <<-3,5>>, -1>>, AngZero, A(3,5,4,5), <<<<3,5>>, <<-4,5>>, -1>>, <<R0, Z(-1), -1>>>>
MuPool == <<<<25,4>>, <<100,9>>, <<169,36>>, Z(4)>>
NuPool == <<<<36,25>>, <<-64,25>>, R0, <<64,25>>, <<-36,25>>>>
PoolEl(kd, l) ==
  CASE kd = "len" -> Rn(5 * l - 7, (l % 3) + 1)
    [] kd = "rad" -> Rn(2 * l + 1, (l % 2) + 1)
    [] kd = "az" -> At(Az12, l + 1)
    [] kd = "pol" -> At(Pol8, l + 2)
    [] kd = "lat" -> At(LatPool, l + 1)
    [] kd = "mu" -> At(MuPool, l + 1)
    [] kd = "nu" -> At(NuPool, l + 1)
    [] kd = "rate" -> Rn(5 * l - 13, (l % 4) + 1)
KindsOf(c) == IF IsPosCls(c) THEN Kinds(c) ELSE [i \in 1..DimOf(PosOfDif(c)) |-> "rate"]
\* the element of a component of shape b at coordinate co of the batch shape
CompAt(kd, j, co, b, salt) ==
  LET off == Len(co) - Len(b)
  IN PoolEl(kd, salt + 3 * j + Lin([i \in DOMAIN b |-> IF b[i] = 1 THEN 0 ELSE co[i + off]], b) - 1)
LitB(d, c, shape, bs, salt, un) ==
  LET kd == KindsOf(c)
      b(j) == bs[((j - 1 + salt) % Len(bs)) + 1]
  IN [op |-> "lit", d |-> d, cls |-> c, shape |-> shape, bshape |-> [j \in DOMAIN kd |-> b(j)], delta |-> Z(2), u |-> un,
      comps |-> [n \in 1..SizeOf(shape) |-> [j \in DOMAIN kd |-> CompAt(kd[j], j, Coord(n, shape), b(j), salt)]]]
LitNDB(d, c, shape, n, salt, un) ==
  [op |-> "lit", d |-> d, cls |-> c, shape |-> shape, n |-> n, u |-> un,
   comps |-> [m \in 1..SizeOf(shape) |-> [j \in 1..n |-> PoolEl("len", salt + 3 * m + 5 * j)]]]
LitAny(d, c, shape, bs, salt, un) ==
  IF c \in {"CartesianPosND", "CartesianVelND", "CartesianAccND"} THEN LitNDB(d, c, shape, (salt % 3) + 2, salt, un)
  ELSE LitB(d, c, shape, bs, salt, un)
\* component shapes that broadcast to the batch shape: the last component may not decide the shape alone
BShapes(shape) ==
  LET n == Len(shape)
      ones == [i \in 1..n |-> 1]
  IN IF n = 0 THEN << <<>> >>
     ELSE IF n = 1 THEN << shape, <<>>, <<1>> >>
     ELSE IF n = 2 THEN << <<shape[1], 1>>, <<shape[2]>>, <<>> >>
     ELSE << <<shape[1], 1, shape[3]>>, <<shape[2], 1>>, <<shape[3]>> >>
\* 1-component classes cannot be spread; two-component classes need both parts
Spread(c, shape) == IF Len(KindsOf(c)) = 1 \/ SizeOf(shape) = 0 THEN << shape >> ELSE
                    IF Len(shape) = 0 THEN << <<>> >> ELSE
                    IF Len(KindsOf(c)) = 2 THEN (IF Len(shape) = 1 THEN << shape, <<>> >> ELSE
                                                 IF Len(shape) = 2 THEN << <<shape[1], 1>>, <<shape[2]>> >> ELSE << <<shape[1], 1, shape[3]>>, <<shape[2], 1>> >>)
                    ELSE BShapes(shape)
=============================================================================
