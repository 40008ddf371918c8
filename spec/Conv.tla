-------------------------------- MODULE Conv --------------------------------
(* Vectors turned into quantities and back, and what a vector says about     *)
(* itself.  A position of any class becomes its Cartesian coordinates along  *)
(* a new last axis; Cartesian (and radial) rates become their components.    *)
EXTENDS Misc

FlatRows(rows) == FlattenSeq([i \in 1..Len(rows) |-> rows[i]])
Width(v) == LET r == IF v.k = "pos" THEN v.pts ELSE v.cmp IN Len(r[1])
QClass(to) == IF to = "AbstractQuantity" THEN "Quantity" ELSE to
KindOfVal(v) == CASE v.k = "pos" -> "len" [] v.k = "vel" -> "len/t" [] v.k = "acc" -> "len/t2"
DimOfKind(kd) == CASE kd = "len" -> LenDim [] kd = "len/t" -> SpdDim [] kd = "len/t2" -> AccDim [] kd = "one" -> <<0, 0, 0>> [] kd = "len2" -> <<2, 0, 0>>
CanToQ(v, to) ==
  IF v.k = "pos" THEN v.cls # "TwoSpherePos"
  ELSE v.cls \in {"CartesianVel1D", "RadialVel", "CartesianAcc1D", "RadialAcc", "CartesianVel2D", "CartesianAcc2D", "CartesianVel3D", "CartesianAcc3D"}
       /\ to \in {"Quantity", "UncheckedQuantity"}
EvalToq(st, v) ==
  IF ~CanToQ(v, st.to) THEN Err
  ELSE LET kd == KindOfVal(v) IN
       [qc |-> QClass(st.to)] @@ QtyD(v.shape \o << Width(v) >>, FlatRows(IF v.k = "pos" THEN v.pts ELSE v.cmp), kd, DimOfKind(kd))
\* a quantity whose last axis holds the components
QRows(q) == LET n == q.shape[Len(q.shape)] IN [i \in 1..(SizeOf(q.shape) \div n) |-> [j \in 1..n |-> q.val[(i - 1) * n + j]]]
Front_(s) == SubSeq(s, 1, Len(s) - 1)
EvalQfrom(st, q) ==
  LET c == CASE st.cls = "AbstractPos3D" -> "CartesianPos3D" [] st.cls = "AbstractVel3D" -> "CartesianVel3D"
             [] st.cls = "AbstractAcc3D" -> "CartesianAcc3D" [] OTHER -> st.cls
      sh == Front_(q.shape)
  IN IF IsPosCls(c) THEN (IF c = "RadialPos" /\ \E i \in DOMAIN q.val : q.val[i][1] < 0 THEN Err ELSE Pos(c, sh, QRows(q), R1))
     ELSE Dif(IF IsAccCls(c) THEN "acc" ELSE "vel", c, sh, QRows(q), QRows(q), R1)
\* the direction of every row
EvalUnitDir(st, x) ==
  LET q == IF x.k = "pos" THEN [shape |-> Append(x.shape, Width(x)), val |-> FlatRows(x.pts)] ELSE x
      rows == QRows(q)
      dir(r) == LET n == NormOf(r) IN [j \in DOMAIN r |-> IF IsRat(n) THEN RDiv(r[j], n) ELSE NaR]
  IN QtyD(q.shape, FlatRows([i \in DOMAIN rows |-> dir(rows[i])]), "one", <<0, 0, 0>>)
\* the product of two positions: coordinate by coordinate
EvalPosProd(st, x, y) ==
  LET sh == BShape2(x.shape, y.shape)
      p == Pick(x.pts, BroadcastTo(x.shape, sh).src)
      q == Pick(y.pts, BroadcastTo(y.shape, sh).src)
  IN QtyD(sh \o << Width(x) >>, FlatRows([i \in DOMAIN p |-> [j \in DOMAIN p[i] |-> RMul(p[i][j], q[i][j])]]), "len2", <<2, 0, 0>>)
\* three numbers of any one dimension
EvalGen3(st, q) ==
  LET n == Len(q.shape) - 1
      rows == QRows(q)
      sh == Front_(q.shape)
      res(s, rs) == QtyD(s \o <<3>>, FlatRows(rs), q.kind, DimOfKind(q.kind))
  IN IF q.shape[n + 1] # 3 THEN Err
     ELSE CASE st.f = "id" -> res(sh, rows)
            [] st.f = "neg" -> res(sh, [i \in DOMAIN rows |-> VNeg(rows[i])])
            [] st.f = "ravel" -> res(<< SizeOf(sh) >>, rows)
            [] st.f = "last" -> LET b == SizeOf(Tail(sh)) IN res(Tail(sh), [i \in 1..b |-> rows[(sh[1] - 1) * b + i]])

\* ------------------------------------------------- what a vector says of itself ----
PosNames(c) ==
  CASE c = "CartesianPos1D" -> <<"x">> [] c = "RadialPos" -> <<"r">> [] c = "CartesianPos2D" -> <<"x", "y">>
    [] c = "PolarPos" -> <<"r", "phi">> [] c = "TwoSpherePos" -> <<"theta", "phi">> [] c = "CartesianPos3D" -> <<"x", "y", "z">>
    [] c = "CylindricalPos" -> <<"rho", "phi", "z">> [] c \in {"SphericalPos", "MathSphericalPos"} -> <<"r", "theta", "phi">>
    [] c = "LonLatSphericalPos" -> <<"lon", "lat", "distance">> [] c = "ProlateSpheroidalPos" -> <<"mu", "nu", "phi">> [] c = "CartesianPosND" -> <<"q">>
CompNames(c) ==
  IF IsPosCls(c) THEN PosNames(c)
  ELSE IF c = "LonCosLatSphericalVel" THEN <<"d_lon_coslat", "d_lat", "d_distance">>
  ELSE LET p == PosNames(PosOfDif(c)) pre == IF IsAccCls(c) THEN "d2_" ELSE "d_" IN [i \in DOMAIN p |-> pre \o p[i]]
EvalDesc(v) == [k |-> "desc", vcls |-> v.cls, names |-> CompNames(v.cls), shape |-> v.shape, nd |-> ND(BasePos(v.cls)), delta |-> v.cls = "ProlateSpheroidalPos"]
RECURSIVE BAll(_, _, _)
BAll(ss, i, acc) == IF i > Len(ss) THEN acc ELSE BAll(ss, i + 1, BShape2(acc, ss[i]))
CheckDesc(v, o) ==
  IF o.k # "desc" THEN {"kind"} ELSE
  (IF o.names = v.names /\ o.names = o.ukeys /\ o.names = o.skeys /\ o.names = o.zkeys /\ o.names = o.dkeys
      /\ o.akeys = (IF v.delta THEN v.names \o <<"Delta">> ELSE v.names) THEN {} ELSE {"names"})
  \cup (IF \A i \in DOMAIN o.shapes : o.sizes[i] = SizeOf(o.shapes[i]) THEN {} ELSE {"sizes"})
  \cup (IF v.nd \/ BAll(o.shapes, 1, <<>>) = v.shape THEN {} ELSE {"shape"})
  \cup (IF o.same = 1 THEN {} ELSE {"asdict"})
  \cup (IF o.pcls = v.vcls /\ o.pnames = v.names /\ o.punits = 1 /\ o.printed = 1 THEN {} ELSE {"print"})
=============================================================================
