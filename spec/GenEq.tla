-------------------------------- MODULE GenEq --------------------------------
(* Equality of vectors: identical values in other units, one component of    *)
(* one element changed, broadcasting operands, other representations.       *)
EXTENDS Shapes, IOUtils
Thorough == IOEnv.TIER = "thorough"
Sc0(id, prec, steps) == [id |-> id, base |-> [len |-> "km", time |-> "s"], mag |-> 0, prec |-> prec, steps |-> steps]
\* every value here converts exactly between the two unit sets
UA == [len |-> <<"km">>, ang |-> <<"deg">>, time |-> "s", len2 |-> "km2"]
UB == [len |-> <<"m", "km">>, ang |-> <<"arcmin">>, time |-> "s", len2 |-> "m2"]
UC == [len |-> <<"km", "m">>, ang |-> <<"arcmin", "deg">>, time |-> "s", len2 |-> "km2"]
RateKinds(c) == LET kd == Kinds(PosOfDif(c)) IN [i \in DOMAIN kd |-> IF IsAngKind(kd[i]) THEN "angrate" ELSE "rate"]
KindsEq(c) == IF IsPosCls(c) THEN Kinds(c) ELSE RateKinds(c)
WAng(i) == LET a == At(Axes4, i) IN <<a[1], a[2], (i % 3) - 1>>
EqPool(kd, l) ==
  CASE kd \in {"len", "rate"} -> Z(3 * l - 4)
    [] kd = "rad" -> Z(l + 1)
    [] kd = "az" -> At(Axes4, l)
    [] kd = "pol" -> Ang90
    [] kd = "lat" -> AngZero
    [] kd = "mu" -> At(<<Z(625), <<5625, 16>>>>, l)
    [] kd = "nu" -> At(<<Z(81), Z(-144), Z(144), Z(-81)>>, l)
    [] kd = "angrate" -> WAng(l)
\* a different admissible value of the same kind
Other(kd, l) ==
  CASE kd \in {"len", "rate", "rad"} -> RAdd(EqPool(kd, l), R1)
    [] kd = "az" -> At(Axes4, l + 1)
    [] kd = "pol" -> A(3, 5, 4, 5)
    [] kd = "lat" -> A(4, 5, 3, 5)
    [] kd = "mu" -> At(<<Z(625), <<5625, 16>>>>, l + 1)
    [] kd = "nu" -> At(<<Z(81), Z(-144), Z(144), Z(-81)>>, l + 1)
    [] kd = "angrate" -> LET a == WAng(l) IN IF l % 2 = 0 THEN <<a[1], a[2], a[3] + 1>> ELSE WAng(l + 3)
Rows(c, n, k) == [e \in 1..n |-> [j \in DOMAIN KindsEq(c) |-> EqPool(KindsEq(c)[j], e + j + k)]]
Delta15 == Z(15)
LE(d, c, shape, rows, un) == [op |-> "lit", d |-> d, cls |-> c, shape |-> shape, comps |-> rows, delta |-> Delta15, u |-> un]
Eq(x, y, f, form, mode) == [op |-> "eq", a |-> <<x, y>>, f |-> f, form |-> form, mode |-> mode]
\* the array function is defined for positions and Cartesian rates
FnForm(c) == IF (IsPosCls(c) /\ c # "TwoSpherePos")
                \/ c \in {"CartesianVel1D", "CartesianVel2D", "CartesianVel3D", "CartesianAcc1D", "CartesianAcc2D", "CartesianAcc3D"}
             THEN "func" ELSE "op"
Change(c, rows, e, j, k) == [rows EXCEPT ![e][j] = Other(KindsEq(c)[j], e + j + k)]
One(c, ci) ==
  LET r == Rows(c, 3, ci)
      nc == Len(KindsEq(c))
  IN Sc0("eq-" \o c, 64,
     << LE("x", c, <<3>>, r, UA), LE("y", c, <<3>>, r, UB), LE("w", c, <<3>>, r, UC), LE("s", c, <<>>, <<r[2]>>, UB),
        Eq("x", "x", "eq", "op", "eager"), Eq("x", "y", "eq", "op", "eager"), Eq("y", "x", "eq", "op", "eager"),
        Eq("w", "y", "eq", FnForm(c), "eager"), Eq("x", "w", "eq", "op", "jit"),
        Eq("x", "s", "eq", "op", "eager"), Eq("s", "y", "eq", "op", "eager"), Eq("s", "s", "ne", "op", "eager") >>
     \o FlattenAll([j \in 1..nc |->
          LET e == ((j + ci) % 3) + 1 IN
          << LE("z", c, <<3>>, Change(c, r, e, j, ci), UB), Eq("x", "z", "eq", "op", "eager"), Eq("z", "w", "eq", FnForm(c), "eager"),
             LE("v", c, <<>>, << Change(c, r, 2, j, ci)[2] >>, UA), Eq("s", "v", "eq", "op", "eager"), Eq("s", "v", "ne", "op", "eager"),
             Eq("v", "x", "eq", "op", "eager") >>])
     \o << LE("b", c, <<2, 1>>, Rows(c, 2, ci + 1), UA), LE("a", c, <<2, 3>>, Rows(c, 6, ci), UB),
           Eq("b", "x", "eq", "op", "eager"), Eq("y", "b", "eq", FnForm(c), "eager"), Eq("a", "x", "eq", "op", "eager"), Eq("b", "a", "eq", "op", "eager") >>)
\* n dimensions
LN(d, c, n, shape, rows, un) == [op |-> "lit", d |-> d, cls |-> c, n |-> n, shape |-> shape, comps |-> rows, u |-> un]
NRows(n, m, k) == [e \in 1..m |-> [j \in 1..n |-> Z(3 * e - 2 * j + k)]]
OneN(c, n) ==
  LET r == NRows(n, 3, 1) IN
  Sc0("eqn-" \o c \o ToString(n), 64,
     << LN("x", c, n, <<3>>, r, UA), LN("y", c, n, <<3>>, r, UB), LN("s", c, n, <<>>, <<r[3]>>, UB),
        Eq("x", "y", "eq", "op", "eager"), Eq("y", "x", "eq", FnForm(c), "eager"), Eq("x", "s", "eq", "op", "eager"), Eq("s", "s", "ne", "op", "eager") >>
     \o FlattenAll([j \in 1..n |->
          << LN("z", c, n, <<3>>, [r EXCEPT ![(j % 3) + 1][j] = Z(50)], UB), Eq("x", "z", "eq", "op", "eager"),
             LN("v", c, n, <<>>, << [r[3] EXCEPT ![j] = Z(50)] >>, UA), Eq("s", "v", "eq", "op", "eager"), Eq("v", "s", "ne", "op", "eager") >>]))
\* other representations: clearly distinct points are never equal
P3 == <<"CartesianPos3D", "CylindricalPos", "SphericalPos", "LonLatSphericalPos", "MathSphericalPos">>
Cross(cs, pts) == FlattenAll([i \in DOMAIN cs |-> [j \in DOMAIN cs |->
  Sc0("cross-" \o cs[i] \o "-" \o cs[j], 64,
    << LitOf("x", cs[i], Clip(pts, i, i + 3), R1, U(i + j)), LitOf("y", cs[j], Clip(pts, i + 1, i + 4), R1, U(i)),
       LitOf("z", cs[j], Clip(pts, i, i + 3), R1, U(i + j)), Eq("x", "y", "eq", "op", "eager"), Eq("x", "z", "eq", "op", "eager"), Eq("y", "x", "eq", "func", "eager") >>)]])
\* 32-bit: same units
One32(c, ci) ==
  LET r == Rows(c, 3, ci) IN
  Sc0("eq32-" \o c, 32,
     << LE("x", c, <<3>>, r, UA), LE("y", c, <<3>>, r, UA), Eq("x", "y", "eq", "op", "eager"),
        LE("z", c, <<3>>, Change(c, r, 2, 1, ci), UA), Eq("x", "z", "eq", "op", "eager"), Eq("z", "y", "eq", FnForm(c), "eager") >>)
\* the batch may be spread over the components
Bx(c, ci) ==
  LET sp == Spread(c, <<2, 3>>) IN
  Sc0("eqb-" \o c, 64,
     << LitB("x", c, <<2, 3>>, sp, ci, U(1)), LitB("y", c, <<2, 3>>, << <<2, 3>> >>, ci, U(1)), LitB("z", c, <<2, 3>>, sp, ci + 1, U(1)),
        Eq("x", "x", "eq", "op", "eager"), Eq("x", "z", "eq", "op", "eager"), Eq("z", "x", "eq", FnForm(c), "eager") >>)
Scenarios == [i \in DOMAIN AllCls |-> One(AllCls[i], i)]
             \o FlattenAll([i \in 1..3 |-> [n \in 1..3 |-> OneN(AllND[i], n)]])
             \o Cross(P3, Pts3Reg0) \o Cross(<<"CartesianPos2D", "PolarPos">>, Pts2)
             \o [i \in DOMAIN AllCls |-> One32(AllCls[i], i)]
             \o [i \in DOMAIN AllCls |-> Bx(AllCls[i], i)]
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
