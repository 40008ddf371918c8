-------------------------------- MODULE Api --------------------------------
(* Semantics of the public vector API over abstract values.                 *)
(*                                                                          *)
(* A register file maps names to abstract values:                           *)
(*   [k|->"pos", cls, shape, pts, delta]    pts: row-major points (Geo)      *)
(*   [k|->"vel" | "acc", cls, shape, cmp, cart, delta]                       *)
(*       cmp: rows of exact chart components (NaR where irrational),         *)
(*       cart: the Cartesian vector where known                             *)
(*   [k|->"q", shape, val, kind]            plain quantity                   *)
(*   [k|->"err"]                            the call must be refused         *)
(* EvalVec(st, env) is the abstract result of step st.                      *)
EXTENDS Geo, Json, SequencesExt

Has(r, f) == f \in DOMAIN r
Get(r, f, dflt) == IF f \in DOMAIN r THEN r[f] ELSE dflt
RECURSIVE ProdSeq(_, _)
ProdSeq(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * ProdSeq(s, i + 1)
SizeOf(shape) == ProdSeq(shape, 1)

Err == [k |-> "err"]
Pos(cls, shape, pts, delta) == [k |-> "pos", cls |-> cls, shape |-> shape, pts |-> pts, delta |-> delta]
Dif(k, cls, shape, cmp, cart, delta) ==
  [k |-> k, cls |-> cls, shape |-> shape, cmp |-> cmp, cart |-> cart, delta |-> delta]
Qty(shape, val, kind) == [k |-> "q", shape |-> shape, val |-> val, kind |-> kind]

\* ------------------------------------------------------ class structure ----
Names == {"Cartesian", "Radial", "Polar", "Cylindrical", "Spherical", "LonLatSpherical",
          "MathSpherical", "ProlateSpheroidal", "TwoSphere"}
PosOfDif(c) ==
  CASE c \in {"CartesianVel1D", "CartesianAcc1D"} -> "CartesianPos1D"
    [] c \in {"RadialVel", "RadialAcc"} -> "RadialPos"
    [] c \in {"CartesianVel2D", "CartesianAcc2D"} -> "CartesianPos2D"
    [] c \in {"PolarVel", "PolarAcc"} -> "PolarPos"
    [] c \in {"CartesianVel3D", "CartesianAcc3D"} -> "CartesianPos3D"
    [] c \in {"CylindricalVel", "CylindricalAcc"} -> "CylindricalPos"
    [] c \in {"SphericalVel", "SphericalAcc"} -> "SphericalPos"
    [] c \in {"LonLatSphericalVel", "LonLatSphericalAcc", "LonCosLatSphericalVel"} -> "LonLatSphericalPos"
    [] c \in {"MathSphericalVel", "MathSphericalAcc"} -> "MathSphericalPos"
    [] c \in {"ProlateSpheroidalVel", "ProlateSpheroidalAcc"} -> "ProlateSpheroidalPos"
    [] c \in {"CartesianVelND", "CartesianAccND"} -> "CartesianPosND"
VelOfPos(c) ==
  CASE c = "CartesianPos1D" -> "CartesianVel1D" [] c = "RadialPos" -> "RadialVel"
    [] c = "CartesianPos2D" -> "CartesianVel2D" [] c = "PolarPos" -> "PolarVel"
    [] c = "CartesianPos3D" -> "CartesianVel3D" [] c = "CylindricalPos" -> "CylindricalVel"
    [] c = "SphericalPos" -> "SphericalVel" [] c = "LonLatSphericalPos" -> "LonLatSphericalVel"
    [] c = "MathSphericalPos" -> "MathSphericalVel"
    [] c = "ProlateSpheroidalPos" -> "ProlateSpheroidalVel"
    [] c = "CartesianPosND" -> "CartesianVelND"
AccOfPos(c) ==
  CASE c = "CartesianPos1D" -> "CartesianAcc1D" [] c = "RadialPos" -> "RadialAcc"
    [] c = "CartesianPos2D" -> "CartesianAcc2D" [] c = "PolarPos" -> "PolarAcc"
    [] c = "CartesianPos3D" -> "CartesianAcc3D" [] c = "CylindricalPos" -> "CylindricalAcc"
    [] c = "SphericalPos" -> "SphericalAcc" [] c = "LonLatSphericalPos" -> "LonLatSphericalAcc"
    [] c = "MathSphericalPos" -> "MathSphericalAcc"
    [] c = "ProlateSpheroidalPos" -> "ProlateSpheroidalAcc"
    [] c = "CartesianPosND" -> "CartesianAccND"
CartOf(c) == CASE DimOf(c) = 1 -> "CartesianPos1D" [] DimOf(c) = 2 -> "CartesianPos2D" [] OTHER -> "CartesianPos3D"

\* exact Jacobian of a differential class at point p (columns: its components)
DifJac(dcls, p, delta) ==
  IF ND(PosOfDif(dcls)) THEN MId(Len(p)) ELSE
  LET pc == PosOfDif(dcls)
      q == Encode(pc, p, delta)
      J == DecJac(pc, q, delta)
  IN IF dcls = "LonCosLatSphericalVel"
     THEN LET cl == C(q[2]) IN [i \in 1..3 |-> <<RDiv(J[i][1], cl), J[i][2], J[i][3]>>]
     ELSE J
DifInv(dcls, p, delta) ==          \* orthogonal charts
  LET T == MTr(DifJac(dcls, p, delta))
  IN [i \in DOMAIN T |-> VScale(RInv(Norm2(T[i])), T[i])]
ToCart(dcls, cmp, p, delta) == MVec(DifJac(dcls, p, delta), cmp)
FromCart(dcls, v, p, delta) == MVec(DifInv(dcls, p, delta), v)

\* ------------------------------------------------- dimension changes ----
Kw(st, name, i, dflt) ==
  IF Has(st, "kw") /\ Has(st.kw, name)
  THEN LET vs == st.kw[name][2] IN IF Len(vs) = 1 THEN vs[1] ELSE vs[i]
  ELSE dflt
Lowering == [ s \in Charts2 \cup (Charts3 \ {"LonLatSphericalPos"}) |->
              IF DimOf(s) = 2 THEN Charts1 ELSE Charts1 \cup Charts2 ]
Raising ==  [ s \in Charts1 \cup Charts2 |->
              CASE DimOf(s) = 1 -> Charts2 \cup {"CartesianPos3D", "CylindricalPos", "SphericalPos", "MathSphericalPos"}
                [] OTHER -> {"CartesianPos3D", "CylindricalPos", "SphericalPos", "MathSphericalPos"} ]
CanLower(s, t) == s \in DOMAIN Lowering /\ t \in Lowering[s]
CanRaise(s, t) == s \in DOMAIN Raising /\ t \in Raising[s]

Lower(s, t, p) ==
  CASE t = "CartesianPos1D" -> <<p[1]>>
    [] t = "RadialPos" -> IF s = "CylindricalPos" THEN <<NormOf(<<p[1], p[2]>>)>> ELSE <<NormOf(p)>>
    [] t \in Charts2 -> <<p[1], p[2]>>
\* NaR-positive when the embedding is refused (a negative radius)
Raise(s, t, p, st, i) ==
  LET y == Kw(st, "y", i, R0)
      z == Kw(st, "z", i, R0)
      th == Kw(st, "theta", i, AngZero)
      ph == Kw(st, "phi", i, AngZero)
  IN IF DimOf(s) = 1 THEN
       CASE t = "CartesianPos2D" -> <<p[1], y>>
         [] t = "PolarPos" -> Decode("PolarPos", <<p[1], ph>>, R1)
         [] t = "CartesianPos3D" -> <<p[1], y, z>>
         [] t = "SphericalPos" -> Decode("SphericalPos", <<p[1], th, ph>>, R1)
         [] t = "MathSphericalPos" -> Decode("MathSphericalPos", <<p[1], th, ph>>, R1)
         [] t = "CylindricalPos" -> Decode("CylindricalPos", <<p[1], ph, z>>, R1)
     ELSE IF s = "PolarPos" /\ t \in {"SphericalPos", "MathSphericalPos"} THEN
            \* documented: the polar radius becomes the spherical radius
            LET r == NormOf(p)
                az == AzOf(p[1], p[2])
            IN IF t = "SphericalPos" THEN Decode(t, <<r, th, az>>, R1)
               ELSE Decode(t, <<r, az, ph>>, R1)
     ELSE <<p[1], p[2], z>>

\* ------------------------------------------------------------- literals ----
LitPos(st) ==
  LET dl == Get(st, "delta", R1)
      n == Len(st.comps)
  IN IF Get(st, "ctor", "") = "from_kw"      \* the normalising constructors
     THEN Pos(st.cls, st.shape, [i \in 1..n |-> Decode(st.cls, st.comps[i], dl)], dl)
     ELSE IF \A i \in 1..n : ND(st.cls) \/ Admissible(st.cls, st.comps[i], dl)
     THEN Pos(st.cls, st.shape,
              [i \in 1..n |-> Decode(st.cls, st.comps[i], dl)], dl)
     ELSE Err
\* a rate may be literal as an exact angle per unit time: exact only as an angle ("raw")
LitDif(st, k) ==
  LET ang(q) == Len(q) = 3
      cmp == [i \in DOMAIN st.comps |-> [j \in DOMAIN st.comps[i] |-> IF ang(st.comps[i][j]) THEN NaR ELSE st.comps[i][j]]]
      v == Dif(k, st.cls, st.shape, cmp, <<>>, Get(st, "delta", R1))
  IN IF \E i \in DOMAIN st.comps : \E j \in DOMAIN st.comps[i] : ang(st.comps[i][j])
     THEN [raw |-> st.comps] @@ v ELSE v
IsPosCls(c) == c \in Charts1 \cup Charts2 \cup Charts3 \cup {"TwoSpherePos", "CartesianPosND"}
IsAccCls(c) == c \in {"CartesianAcc1D", "RadialAcc", "CartesianAcc2D", "PolarAcc", "CartesianAcc3D",
   "CylindricalAcc", "SphericalAcc", "LonLatSphericalAcc", "MathSphericalAcc", "ProlateSpheroidalAcc",
   "CartesianAccND"}

\* a position argument: a position register or a Cartesian length quantity (..., dim)
RowsOf(v, d) == [i \in 1..(Len(v.val) \div d) |-> [j \in 1..d |-> v.val[(i - 1) * d + j]]]
PtsOf(v, d) == IF v.k = "pos" THEN v.pts ELSE RowsOf(v, d)

\* ------------------------------------------------------------ operations ----
EvalRep(st, v) ==
  LET t == st.cls
      n == Len(v.pts)
      dl == IF t = "ProlateSpheroidalPos"
            THEN IF Has(st, "kw") /\ Has(st.kw, "Delta") THEN st.kw.Delta[2][1]
                 ELSE IF v.cls = t THEN v.delta ELSE NaR
            ELSE R1
  IN IF v.cls = t /\ t # "ProlateSpheroidalPos" THEN v
     ELSE IF t = "ProlateSpheroidalPos" /\ ~IsRat(dl) THEN Err
     ELSE IF DimOf(v.cls) = DimOf(t)
          THEN IF t = "RadialPos" /\ \E i \in 1..n : v.pts[i][1][1] < 0 THEN Err
               ELSE Pos(t, v.shape, v.pts, dl)
     ELSE IF CanLower(v.cls, t)
          THEN Pos(t, v.shape, [i \in 1..n |-> Lower(v.cls, t, v.pts[i])], R1)
     ELSE IF CanRaise(v.cls, t)
          THEN IF DimOf(v.cls) = 1 /\ t \in {"PolarPos", "CylindricalPos"}
                  /\ \E i \in 1..n : v.pts[i][1][1] < 0 THEN Err
               ELSE Pos(t, v.shape, [i \in 1..n |-> Raise(v.cls, t, v.pts[i], st, i)], R1)
     ELSE Err
\* exactly when the target has fewer dimensions must a warning be given
EvalWarn(st, v) == v.k = "pos" /\ IsPosCls(st.cls) /\ v.k # "err" /\ DimOf(st.cls) < DimOf(v.cls)

\* coordinate singularities of a chart, where a Jacobian does not exist
Singular(cls, p) ==
  CASE cls \in {"PolarPos", "CylindricalPos", "SphericalPos", "MathSphericalPos", "LonLatSphericalPos"} ->
         p[1] = R0 /\ p[2] = R0
    [] cls = "ProlateSpheroidalPos" -> (p[1] = R0 /\ p[2] = R0) \/ p[3] = R0
    [] OTHER -> FALSE
NaRs(n) == [j \in 1..n |-> NaR]
DifDelta(st, v) == IF Has(st, "kw") /\ Has(st.kw, "Delta") THEN st.kw.Delta[2][1] ELSE v.delta
EvalRepDif(st, v, pos) ==
  LET t == st.cls
      n == Len(v.cmp)
      d == IF v.cls \in {"CartesianVelND", "CartesianAccND"} THEN Len(v.cmp[1]) ELSE DimOf(PosOfDif(v.cls))
      pts == PtsOf(pos, d)
      pt(i) == IF Len(pts) = 1 THEN pts[1] ELSE pts[i]
      dl == DifDelta(st, v)
      cart == [i \in 1..n |-> IF AllRat(v.cmp[i]) THEN ToCart(v.cls, v.cmp[i], pt(i), dl)
                              ELSE v.cart[i]]
      cmp == [i \in 1..n |-> IF v.cls = t THEN v.cmp[i]
                              ELSE IF Singular(PosOfDif(t), pt(i)) THEN NaRs(d)
                              ELSE FromCart(t, cart[i], pt(i), dl)]
      \* past a singular chart nothing is known any more
      keep == [i \in 1..n |-> IF Singular(PosOfDif(t), pt(i)) THEN NaRs(d) ELSE cart[i]]
  IN Dif(v.k, t, v.shape, cmp, keep, dl)

\* the speed (magnitude of the Cartesian components) of a velocity at a position
EvalNormDif(v, pos) ==
  LET d == Len(v.cmp[1])
      pts == PtsOf(pos, d)
      pt(i) == IF Len(pts) = 1 THEN pts[1] ELSE pts[i]
  IN Qty(v.shape, [i \in 1..Len(v.cmp) |-> NormOf(IF AllRat(v.cmp[i]) THEN ToCart(v.cls, v.cmp[i], pt(i), v.delta)
                                                 ELSE v.cart[i])],
         IF v.k = "vel" THEN "len/t" ELSE "len/t2")

\* ------------------------------------------------------- observation ----
\* observed angle: <<cos, sin, floor_deg, on_integer_degree, raw_floor_deg>>
OAng(o) == <<o[1], o[2], 0>>
InRangeObs(kd, o) ==
  CASE kd \in {"len"} -> TRUE
    [] kd \in {"rad", "mu"} -> o[1] >= 0
    [] kd = "nu" -> TRUE
    \* rounding may put a direction just below 360 on 360 itself ("wrap" is strict)
    [] kd = "az" -> o[5] >= 0 /\ (o[5] < 360 \/ (o[5] = 360 /\ o[4] = 1))
    [] kd = "pol" -> o[3] >= 0 /\ (o[3] < 180 \/ (o[3] = 180 /\ o[4] = 1))
    [] kd = "lat" -> o[3] >= -90 /\ (o[3] < 90 \/ (o[3] = 90 /\ o[4] = 1))
RangeOk(cls, row, delta) ==
  LET kd == Kinds(cls)
  IN \A i \in DOMAIN kd :
       /\ InRangeObs(kd[i], row[i])
       /\ kd[i] = "mu" /\ IsRat(row[i]) => RLeq(RSqr(delta), row[i])
       /\ kd[i] = "nu" /\ IsRat(row[i]) => RLeq(RAbs(row[i]), RSqr(delta))
\* the harness's abstraction function agrees with the specification's Decode
DecodeOk(cls, row, den, delta) ==
  LET kd == Kinds(cls)
      q == [i \in DOMAIN kd |-> IF IsAngKind(kd[i]) THEN OAng(row[i]) ELSE row[i]]
      sm(r) == r[2] # 0 /\ r[2] <= 130 /\ Abs(r[1]) <= 2000     \* stays within 32 bits
      ok(i) == IF IsAngKind(kd[i]) THEN sm(q[i][1]) /\ sm(q[i][2]) ELSE sm(q[i])
  IN (\A i \in DOMAIN kd : ok(i)) /\ AllRat(den)
       => LET d == Decode(cls, q, delta) IN AllRat(d) => d = den
\* a rational too long to be told from its neighbours at the working precision is not compared
Sharp(r) == IsRat(r) /\ r[2] <= 12000 /\ Abs(r[1]) <= 120000
EqPt(e, o) == \A j \in DOMAIN e : Sharp(e[j]) => o[j] = e[j]

\* an azimuth literal given in exact degrees is wrapped strictly below 360
StrictAz(cls, o) == LET kd == Kinds(cls)
  IN \A i \in DOMAIN o.comps : \A j \in DOMAIN kd : kd[j] = "az" => o.comps[i][j][5] < 360
SameLen(a, b) == Len(a) = Len(b)
CheckPos(v, o, prec) ==
  (IF o.cls = v.cls THEN {} ELSE {"class"})
  \cup (IF o.shape = v.shape THEN {} ELSE {"shape"})
  \cup (IF o.cls # v.cls \/ ~SameLen(o.den, v.pts) THEN {"size"} ELSE
     (IF \A i \in DOMAIN v.pts : EqPt(v.pts[i], o.den[i]) THEN {} ELSE {"point"})
     \cup (IF ND(v.cls) THEN {} ELSE
       (IF o.dims = 1 THEN {} ELSE {"dimension"})
       \cup (IF \A i \in DOMAIN v.pts : RangeOk(v.cls, o.comps[i], v.delta) THEN {} ELSE {"range"})
       \cup (IF prec = 32 \/ \A i \in DOMAIN v.pts : DecodeOk(v.cls, o.comps[i], o.den[i], v.delta) THEN {} ELSE {"decode"})
       \cup (IF Has(o, "delta") /\ \E i \in DOMAIN o.delta : o.delta[i] # v.delta THEN {"delta"} ELSE {})))
\* in single precision only short fractions can be read off a number
Readable(r, prec) == Sharp(r) /\ (prec = 32 => r[2] <= 60 /\ r[1] \in -1000..1000)
CheckDif(v, o, prec) ==
  (IF o.cls = v.cls THEN {} ELSE {"class"})
  \cup (IF o.shape = v.shape THEN {} ELSE {"shape"})
  \cup (IF o.cls # v.cls \/ ~SameLen(o.comps, v.cmp) THEN {"size"} ELSE
     (IF \A i \in DOMAIN v.cmp : \A j \in DOMAIN v.cmp[i] : Readable(v.cmp[i][j], prec) => o.comps[i][j] = v.cmp[i][j] THEN {} ELSE {"components"})
     \cup (IF ND(PosOfDif(v.cls)) \/ o.dims = 1 THEN {} ELSE {"dimension"}))
CheckQ(v, o) ==
  (IF o.k = "q" THEN {} ELSE {"kind"})
  \cup (IF o.shape = v.shape THEN {} ELSE {"shape"})
  \cup (IF o.k # "q" \/ ~SameLen(o.val, v.val) THEN {"size"}
        ELSE IF EqPt(v.val, o.val) THEN {} ELSE {"value"})
  \cup (IF o.k = "q" /\ Has(v, "dim") /\ o.dim # v.dim THEN {"dimension"} ELSE {})
Skipped(o) == o.ok = 0 /\ o.exc = "Skip"
=============================================================================
