-------------------------------- MODULE Geo --------------------------------
(* The geometry coordinax represents.  A *point* is a tuple of exact        *)
(* rational Cartesian coordinates; a *chart* (representation class) gives   *)
(* it components.  Angles are exact: <<cos, sin, k>> with cos, sin rational *)
(* (Pythagorean directions and the axis directions) and k an integer        *)
(* winding number, meaning  base angle in [0, 360) deg  +  360 k.           *)
(*                                                                          *)
(*   Decode(cls, comps)   components -> point                               *)
(*   Encode(cls, p)       point -> components (canonical)                   *)
(*   DecJac(cls, comps)   d(Cartesian)/d(components), exact                 *)
EXTENDS Rat, FiniteSets

\* ------------------------------------------------------------- angles ----
Ang(c, s, k) == <<c, s, k>>
AngZero == <<R1, R0, 0>>
C(a) == a[1]
S(a) == a[2]
Wind(a) == a[3]
AngRat(a) == IsRat(C(a)) /\ IsRat(S(a))
\* half-open quadrant 0..3 of the base angle: [0,90) [90,180) [180,270) [270,360)
Quad(a) == IF C(a)[1] > 0 /\ S(a)[1] >= 0 THEN 0
           ELSE IF C(a)[1] <= 0 /\ S(a)[1] > 0 THEN 1
           ELSE IF C(a)[1] < 0 /\ S(a)[1] <= 0 THEN 2 ELSE 3
\* order of the base angles in [0, 360)
BaseLess(a, b) == \/ Quad(a) < Quad(b)
                  \/ Quad(a) = Quad(b) /\
                       RSgn(RSub(RMul(C(a), S(b)), RMul(S(a), C(b)))) > 0
BaseEq(a, b) == C(a) = C(b) /\ S(a) = S(b)
AngNeg(a) == <<C(a), RNeg(S(a)), IF BaseEq(a, AngZero) THEN -Wind(a) ELSE -Wind(a) - 1>>
AngAdd(a, b) ==
  LET c == RSub(RMul(C(a), C(b)), RMul(S(a), S(b)))
      s == RAdd(RMul(S(a), C(b)), RMul(C(a), S(b)))
      n == <<c, s, 0>>
  IN <<c, s, Wind(a) + Wind(b) + (IF BaseLess(n, a) THEN 1 ELSE 0)>>
AngSub(a, b) == AngAdd(a, AngNeg(b))
Ang90 == <<R0, R1, 0>>
Ang180 == <<Z(-1), R0, 0>>
Ang270 == <<R0, Z(-1), 0>>
\* membership in the closed intervals [0,180], [-90,90] and half-open [0,360)
In0180(a) == Wind(a) = 0 /\ S(a)[1] >= 0
InLat(a) == (Wind(a) = 0 /\ C(a)[1] >= 0 /\ S(a)[1] >= 0)
            \/ (Wind(a) = -1 /\ C(a)[1] >= 0 /\ S(a)[1] < 0)
In0360(a) == Wind(a) = 0

\* ------------------------------------------------------------- charts ----
Charts1 == {"CartesianPos1D", "RadialPos"}
Charts2 == {"CartesianPos2D", "PolarPos"}
Charts3 == {"CartesianPos3D", "CylindricalPos", "SphericalPos",
            "LonLatSphericalPos", "MathSphericalPos", "ProlateSpheroidalPos"}
DimOf(c) == IF c \in Charts1 THEN 1 ELSE IF c \in Charts2 \cup {"TwoSpherePos"} THEN 2 ELSE 3

\* component kinds: "len" length, "rad" non-negative length, "az" azimuth,
\* "pol" polar angle in [0,180], "lat" latitude in [-90,90], "mu"/"nu" length^2
Kinds(c) ==
  CASE c = "CartesianPos1D" -> <<"len">>
    [] c = "RadialPos" -> <<"rad">>
    [] c = "CartesianPos2D" -> <<"len", "len">>
    [] c = "PolarPos" -> <<"rad", "az">>
    [] c = "TwoSpherePos" -> <<"pol", "az">>
    [] c = "CartesianPos3D" -> <<"len", "len", "len">>
    [] c = "CylindricalPos" -> <<"rad", "az", "len">>
    [] c = "SphericalPos" -> <<"rad", "pol", "az">>
    [] c = "LonLatSphericalPos" -> <<"az", "lat", "rad">>
    [] c = "MathSphericalPos" -> <<"rad", "az", "pol">>
    [] c = "ProlateSpheroidalPos" -> <<"mu", "nu", "az">>
    [] OTHER -> <<>>
IsAngKind(k) == k \in {"az", "pol", "lat"}

Decode(cls, q, delta) ==
  CASE cls \in {"CartesianPos1D", "CartesianPos2D", "CartesianPos3D", "RadialPos", "CartesianPosND"} -> q
    [] cls = "PolarPos" -> <<RMul(q[1], C(q[2])), RMul(q[1], S(q[2]))>>
    [] cls = "CylindricalPos" -> <<RMul(q[1], C(q[2])), RMul(q[1], S(q[2])), q[3]>>
    [] cls = "SphericalPos" ->
         LET rho == RMul(q[1], S(q[2]))
         IN <<RMul(rho, C(q[3])), RMul(rho, S(q[3])), RMul(q[1], C(q[2]))>>
    [] cls = "MathSphericalPos" ->
         LET rho == RMul(q[1], S(q[3]))
         IN <<RMul(rho, C(q[2])), RMul(rho, S(q[2])), RMul(q[1], C(q[3]))>>
    [] cls = "LonLatSphericalPos" ->
         LET rho == RMul(q[3], C(q[2]))
         IN <<RMul(rho, C(q[1])), RMul(rho, S(q[1])), RMul(q[3], S(q[2]))>>
    [] cls = "ProlateSpheroidalPos" ->
         LET d2 == RSqr(delta)
             cv2 == RDiv(RAbs(q[2]), d2)                  \* cos^2 v
             R == RSqrt(RMul(RSub(q[1], d2), RSub(R1, cv2)))
             zz == RSqrt(RMul(q[1], cv2))
         IN <<RMul(R, C(q[3])), RMul(R, S(q[3])), RMul(Z(RSgn(q[2])), zz)>>
    [] cls = "TwoSpherePos" ->           \* the unit sphere's point
         <<RMul(S(q[1]), C(q[2])), RMul(S(q[1]), S(q[2])), C(q[1])>>

\* the azimuth of (x, y): angle zero on the axis; <<.,0>> marks when irrational
AzOf(x, y) ==
  LET rho == RSqrt(RAdd(RSqr(x), RSqr(y)))
  IN IF rho = R0 THEN AngZero ELSE <<RDiv(x, rho), RDiv(y, rho), 0>>
PolOf(r, z) == IF r = R0 THEN AngZero
               ELSE LET c == RDiv(z, r) IN <<c, RSqrt(RSub(R1, RSqr(c))), 0>>
LatOf(r, z) == IF r = R0 THEN AngZero
               ELSE LET s == RDiv(z, r)
                    IN <<RSqrt(RSub(R1, RSqr(s))), s, IF s[1] < 0 THEN -1 ELSE 0>>
NormOf(p) == RSqrt(Norm2(p))
Encode(cls, p, delta) ==
  CASE cls \in {"CartesianPos1D", "CartesianPos2D", "CartesianPos3D", "RadialPos", "CartesianPosND"} -> p
    [] cls = "PolarPos" -> <<NormOf(p), AzOf(p[1], p[2])>>
    [] cls = "CylindricalPos" -> <<NormOf(<<p[1], p[2]>>), AzOf(p[1], p[2]), p[3]>>
    [] cls = "SphericalPos" -> LET r == NormOf(p) IN <<r, PolOf(r, p[3]), AzOf(p[1], p[2])>>
    [] cls = "MathSphericalPos" -> LET r == NormOf(p) IN <<r, AzOf(p[1], p[2]), PolOf(r, p[3])>>
    [] cls = "LonLatSphericalPos" -> LET r == NormOf(p) IN <<AzOf(p[1], p[2]), LatOf(r, p[3]), r>>
    [] cls = "ProlateSpheroidalPos" ->
         LET d2 == RSqr(delta)
             R2 == RAdd(RSqr(p[1]), RSqr(p[2]))
             z2 == RSqr(p[3])
             df == RSub(RAdd(R2, z2), d2)
             D == RSqrt(RAdd(RSqr(df), RMul(Z(4), RMul(R2, d2))))
             mu == RAdd(d2, RMul(<<1, 2>>, RAdd(D, df)))
             an == RSub(d2, RMul(<<1, 2>>, RSub(D, df)))
         IN <<mu, RMul(Z(RSgn(p[3])), an), AzOf(p[1], p[2])>>

CompRat(kd, q) == IF IsAngKind(kd) THEN AngRat(q) ELSE IsRat(q)
CompsRat(cls, q) == LET kd == Kinds(cls) IN \A i \in DOMAIN kd : CompRat(kd[i], q[i])
ND(cls) == cls \in {"CartesianPosND"}

\* canonical-range predicates on exact components
CanonComp(kd, q, delta) ==
  CASE kd = "len" -> TRUE
    [] kd = "rad" -> q[1] >= 0
    [] kd = "az" -> In0360(q)
    [] kd = "pol" -> In0180(q)
    [] kd = "lat" -> InLat(q)
    [] kd = "mu" -> RLeq(RSqr(delta), q)
    [] kd = "nu" -> RLeq(RAbs(q), RSqr(delta))
\* what a constructor must refuse (azimuths are wrapped instead)
Admissible(cls, q, delta) ==
  /\ cls = "ProlateSpheroidalPos" => delta[1] > 0
  /\ LET kd == Kinds(cls) IN \A i \in DOMAIN kd : kd[i] = "az" \/ CanonComp(kd[i], q[i], delta)
WrapAz(a) == <<C(a), S(a), 0>>
Canon(cls, q) == LET kd == Kinds(cls)
                 IN [i \in DOMAIN kd |-> IF kd[i] = "az" THEN WrapAz(q[i]) ELSE q[i]]

\* --------------------------------------------------------- Jacobians ----
\* rows: Cartesian axes, columns: components of the chart
DecJac(cls, q, delta) ==
  CASE cls \in {"CartesianPos1D", "RadialPos"} -> MId(1)
    [] cls = "CartesianPos2D" -> MId(2)
    [] cls = "CartesianPos3D" -> MId(3)
    [] cls = "PolarPos" ->
         <<<<C(q[2]), RNeg(RMul(q[1], S(q[2])))>>, <<S(q[2]), RMul(q[1], C(q[2]))>>>>
    [] cls = "CylindricalPos" ->
         <<<<C(q[2]), RNeg(RMul(q[1], S(q[2]))), R0>>,
           <<S(q[2]), RMul(q[1], C(q[2])), R0>>, <<R0, R0, R1>>>>
    [] cls \in {"SphericalPos", "MathSphericalPos", "LonLatSphericalPos"} ->
         LET r == IF cls = "LonLatSphericalPos" THEN q[3] ELSE q[1]
             az == IF cls = "SphericalPos" THEN q[3] ELSE IF cls = "MathSphericalPos" THEN q[2] ELSE q[1]
             ct == IF cls = "SphericalPos" THEN C(q[2]) ELSE IF cls = "MathSphericalPos" THEN C(q[3]) ELSE S(q[2])
             st == IF cls = "SphericalPos" THEN S(q[2]) ELSE IF cls = "MathSphericalPos" THEN S(q[3]) ELSE C(q[2])
             er == <<RMul(st, C(az)), RMul(st, S(az)), ct>>
             et == VScale(r, <<RMul(ct, C(az)), RMul(ct, S(az)), RNeg(st)>>)
             ea == VScale(RMul(r, st), <<RNeg(S(az)), C(az), R0>>)
         IN IF cls = "SphericalPos" THEN MTr(<<er, et, ea>>)
            ELSE IF cls = "MathSphericalPos" THEN MTr(<<er, ea, et>>)
            ELSE MTr(<<ea, VNeg(et), er>>)
    [] cls = "ProlateSpheroidalPos" ->
         LET d2 == RSqr(delta)
             p == Decode(cls, q, delta)
             R == RSqrt(RAdd(RSqr(p[1]), RSqr(p[2])))
             Rmu == RDiv(R, RMul(Z(2), RSub(q[1], d2)))
             \* R^2 = (mu - d2)(1 - |nu|/d2)
             Rnu == RNeg(RDiv(RMul(Z(RSgn(q[2])), R), RMul(Z(2), RSub(d2, RAbs(q[2])))))
             zmu == RDiv(p[3], RMul(Z(2), q[1]))
             znu == RDiv(p[3], RMul(Z(2), q[2]))
             c == C(q[3])
             s == S(q[3])
         IN <<<<RMul(Rmu, c), RMul(Rnu, c), RNeg(p[2])>>,
              <<RMul(Rmu, s), RMul(Rnu, s), p[1]>>,
              <<zmu, znu, R0>>>>
\* every chart here is orthogonal: J^-1 = diag(1/h^2) J^T
EncJac(cls, q, delta) ==
  LET J == DecJac(cls, q, delta)
      T == MTr(J)
  IN [i \in DOMAIN T |-> VScale(RInv(Norm2(T[i])), T[i])]
\* is the chart regular (Jacobian invertible, no NaR) here?
Regular(cls, q, delta) ==
  LET J == DecJac(cls, q, delta)
      T == MTr(J)
  IN \A i \in DOMAIN T : AllRat(T[i]) /\ Norm2(T[i])[1] # 0
=============================================================================
