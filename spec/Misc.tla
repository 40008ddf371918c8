-------------------------------- MODULE Misc --------------------------------
(* Equality, units, products with times, and constructors.                  *)
EXTENDS Arr

\* ------------------------------------------------------------ equality ----
\* 2 marks an answer the specification leaves open (a point where the chart's
\* own components are not determined, or a re-expression that may round)
Spread2(v, shape) == Rearrange(v, BroadcastTo(v.shape, shape))
RawRows(v) == IF Has(v, "raw") THEN v.raw ELSE v.cmp
EqEl(x, y, i) ==
  IF x.k # "pos" THEN (IF RawRows(x)[i] = RawRows(y)[i] THEN 1 ELSE 0)
  ELSE IF ~AllRat(x.pts[i]) \/ ~AllRat(y.pts[i]) THEN 2
  ELSE IF x.pts[i] # y.pts[i] THEN 0
  ELSE IF x.cls # y.cls \/ x.delta # y.delta \/ Singular(x.cls, x.pts[i]) THEN 2 ELSE 1
EvalEq(st, x0, y0) ==
  LET sh == BShape2(x0.shape, y0.shape)
      x == Spread2(x0, sh)
      y == Spread2(y0, sh)
      t == [i \in 1..SizeOf(sh) |-> EqEl(x, y, i)]
  IN [k |-> "bool", shape |-> sh, val |-> IF st.f = "ne" THEN [i \in DOMAIN t |-> IF t[i] = 2 THEN 2 ELSE 1 - t[i]] ELSE t]
CheckBool(v, o) ==
  IF o.k # "bool" THEN {"kind"}
  ELSE IF o.shape # v.shape \/ ~SameLen(o.val, v.val) THEN {"shape"}
  ELSE IF \A i \in DOMAIN v.val : v.val[i] = 2 \/ v.val[i] = o.val[i] THEN {} ELSE {"truth"}

\* --------------------------------------------------------------- units ----
\* physical dimension of each component: <<length, time, angle>> powers
RateDim(d, k) == IF k = "vel" THEN <<d[1], d[2] - 1, d[3]>> ELSE IF k = "acc" THEN <<d[1], d[2] - 2, d[3]>> ELSE d
KindDim(kd) == CASE kd \in {"len", "rad"} -> <<1, 0, 0>> [] kd \in {"az", "pol", "lat"} -> <<0, 0, 1>> [] kd \in {"mu", "nu"} -> <<2, 0, 0>>
BasePos(c) == IF IsPosCls(c) THEN c
              ELSE IF c \in {"TwoSphereVel", "TwoSphereAcc"} THEN "TwoSpherePos" ELSE PosOfDif(c)
CompDims(c, k) == IF ND(BasePos(c)) THEN << RateDim(<<1, 0, 0>>, k) >>
                  ELSE LET kd == Kinds(BasePos(c)) IN [i \in DOMAIN kd |-> RateDim(KindDim(kd[i]), k)]
\* the requested unit of every component; "consistent": that of the first component of its dimension
DimName(d) ==
  CASE d = <<1, 0, 0>> -> "length" [] d = <<0, 1, 0>> -> "time" [] d = <<2, 0, 0>> -> "area" [] d = <<0, 0, 1>> -> "angle"
    [] d = <<1, -1, 0>> -> "speed" [] d = <<0, -1, 1>> -> "angular speed" [] d = <<2, -1, 0>> -> "diffusivity"
    [] d = <<1, -2, 0>> -> "acceleration" [] d = <<0, -2, 1>> -> "angular acceleration" [] d = <<2, -2, 0>> -> "specific energy"
FirstOf(ds, i) == CHOOSE j \in 1..i : ds[j] = ds[i] /\ \A m \in 1..(j - 1) : ds[m] # ds[i]
SysUnit(sys, d) ==        \* e.g. "kpc(1) Myr(-2)"
  LET l == CASE sys = "galactic" -> "kpc" [] sys = "si" -> "m" [] sys = "cgs" -> "cm" [] OTHER -> "AU"
      t == CASE sys = "galactic" -> "Myr" [] sys \in {"si", "cgs"} -> "s" [] OTHER -> "yr"
      p(u, n) == IF n = 0 THEN <<>> ELSE <<u \o "(" \o ToString(n) \o ")">>
      parts == p(l, d[1]) \o p("rad", d[3]) \o p(t, d[2])
  IN IF Len(parts) = 1 THEN parts[1] ELSE parts[1] \o " " \o parts[2]
\* st.want: per component what the caller asked for; "=i": whatever component i had
WantUnits(st, v) ==
  LET ds == IF v.k = "fv" THEN << <<0, 1, 0>> >> \o CompDims(v.q.cls, "pos") ELSE CompDims(v.cls, v.k)
  IN CASE st.how = "usys" -> [i \in DOMAIN ds |-> SysUnit(st.sys, ds[i])]
       [] st.how \in {"map", "mapdim"} -> [i \in DOMAIN ds |-> st.map[DimName(ds[i])]]
       [] st.how = "consistent" -> [i \in DOMAIN ds |-> "=" \o ToString(FirstOf(ds, i))]

\* --------------------------------------------------- products with time ----
RECURSIVE AngTimes(_, _)
AngTimes(a, n) == IF n = 0 THEN AngZero
                  ELSE IF n < 0 THEN AngTimes(AngNeg(a), -n)
                  ELSE IF n = 1 THEN a ELSE AngAdd(AngTimes(a, n - 1), a)
IsAngLit(q) == Len(q) = 3
TimesT(q, t) == IF IsAngLit(q) THEN (IF t[2] = 1 THEN AngTimes(q, t[1]) ELSE NaR) ELSE RMul(q, t)
NumOf(q) == IF IsAngLit(q) THEN NaR ELSE q
RateCls(c, k) == IF k = "vel" THEN VelOfPos(c) ELSE c
HasTimes(v, q) == ~(v.cls \in {"LonCosLatSphericalVel", "ProlateSpheroidalVel"})
                  /\ ~(v.cls = "ProlateSpheroidalAcc" /\ q.kind = "time2")
EvalVTime(st, v, q) ==
  LET sh == BShape2(v.shape, q.shape)
      mv == BroadcastTo(v.shape, sh).src
      mq == BroadcastTo(q.shape, sh).src
      rows == [i \in 1..SizeOf(sh) |-> [j \in DOMAIN v.cmp[1] |-> TimesT(RawRows(v)[mv[i]][j], q.val[mq[i]])]]
      pc == PosOfDif(v.cls)
      ispos == v.k = "vel" \/ q.kind = "time2"
  IN IF ~HasTimes(v, q) THEN Err
     ELSE IF ispos THEN
        IF \A i \in DOMAIN rows : ND(pc) \/ Admissible(pc, rows[i], R1)
        THEN Pos(pc, sh, [i \in DOMAIN rows |-> Decode(pc, rows[i], R1)], R1)
        ELSE Err
     ELSE [k |-> "vel", cls |-> VelOfPos(pc), shape |-> sh, cmp |-> [i \in DOMAIN rows |-> [j \in DOMAIN rows[i] |-> NumOf(rows[i][j])]],
           cart |-> <<>>, delta |-> R1, raw |-> rows]

\* -------------------------------------------------------- constructors ----
\* st.how names an equivalent way of writing the same literal; st.bad a reason to refuse it
Abstracts == {"AbstractPos3D", "AbstractVel3D", "AbstractAcc3D"}
CtorCls(st) == CASE st.cls = "AbstractPos3D" -> "CartesianPos3D" [] st.cls = "AbstractVel3D" -> "CartesianVel3D"
                 [] st.cls = "AbstractAcc3D" -> "CartesianAcc3D" [] OTHER -> st.cls
EvalCtor(st) ==
  LET s2 == [st EXCEPT !.cls = CtorCls(st)]
  IN IF Has(st, "bad") THEN Err
     ELSE IF IsPosCls(s2.cls) THEN LitPos([s2 EXCEPT !.op = "lit"])
     ELSE LitDif(s2, IF IsAccCls(s2.cls) THEN "acc" ELSE "vel")
=============================================================================
