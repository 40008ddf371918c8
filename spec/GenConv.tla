------------------------------- MODULE GenConv -------------------------------
(* P24: vectors to quantities and back, products of positions, directions,   *)
(* and what a vector says about itself.                                     *)
EXTENDS Shapes, IOUtils
Thorough == IOEnv.TIER = "thorough"
SEED == atoi(IOEnv.SEED)
S0(id, i, mag, prec, steps) == [id |-> id, base |-> BaseFor(i), mag |-> mag, prec |-> prec, steps |-> steps]
Tos == <<"Quantity", "UncheckedQuantity", "AbstractQuantity", "Distance">>
Mode(k) == At(<<"eager", "eager", "jit", "eager", "vmap">>, k)
Toq(x, to, mode) == [op |-> "toq", d |-> "q", a |-> <<x>>, to |-> to, mode |-> mode]
From(q, c, mode) == [op |-> "qfrom", d |-> "v", a |-> <<q>>, cls |-> c, mode |-> mode]
Desc(x) == [op |-> "desc", a |-> <<x>>]
CartName(c) == LET p == IF IsPosCls(c) THEN c ELSE PosOfDif(c)
                   n == IF ND(p) THEN "ND" ELSE ToString(DimOf(p)) \o "D"
               IN (IF IsPosCls(c) THEN "CartesianPos" ELSE IF IsAccCls(c) THEN "CartesianAcc" ELSE "CartesianVel") \o n
HasQ(c) == c \notin {"TwoSpherePos", "CartesianVelND", "CartesianAccND"}
           /\ (IsPosCls(c) \/ c \in {"CartesianVel1D", "RadialVel", "CartesianAcc1D", "RadialAcc", "CartesianVel2D", "CartesianAcc2D", "CartesianVel3D", "CartesianAcc3D"})
Tosx(c) == IF IsPosCls(c) THEN Tos ELSE <<"Quantity", "UncheckedQuantity">>
Mk(c) == IF c = "CartesianPos3D" \/ c = "SphericalPos" THEN "AbstractPos3D" ELSE IF c = "CartesianVel3D" THEN "AbstractVel3D" ELSE IF c = "CartesianAcc3D" THEN "AbstractAcc3D" ELSE CartName(c)
ShapesQ == << <<>>, <<3>>, <<2, 2>>, <<1>>, <<2, 1, 3>>, <<0>> >>
One(c, i, k) ==
  LET sh == ShapesQ[k]
      ts == Tosx(c)
  IN << LitAny("x", c, sh, Spread(c, sh), i + k, U(i + k)), Desc("x") >>
     \o (IF ~HasQ(c) THEN <<>> ELSE
         FlattenAll([t \in DOMAIN ts |-> LET m == IF c = "ProlateSpheroidalPos" THEN "eager" ELSE IF sh = <<>> \/ sh = <<0>> THEN At(<<"eager", "jit">>, t + i) ELSE IF t = 1 THEN "eager" ELSE At(<<"eager", "jit">>, t + i + k) IN
           << Toq("x", ts[t], m) >> \o (IF sh = <<0>> THEN <<>> ELSE IF t = 1 THEN << From("q", CartName(c), At(<<"eager", "jit">>, i + k)), Toq("v", "Quantity", "eager") >> ELSE IF t = 3 THEN << From("q", Mk(c), "eager") >> ELSE <<>>)]))
Vec(c, i) == S0("conv-" \o c, i, At(Mags, i), 64, FlattenAll([k \in 1..5 |-> One(c, i, k)]) \o << LitAny("x", c, <<4>>, << <<4>> >>, i + 3, U(i + 2)) >>
             \o (IF HasQ(c) THEN << Toq("x", "Quantity", "vmap"), Toq("x", "UncheckedQuantity", IF c = "ProlateSpheroidalPos" THEN "vmap" ELSE "jitvmap") >> ELSE <<>>))
Vec32(c, i) == S0("conv32-" \o c, i, 0, 32, One(c, i, 2) \o One(c, i + 1, 1))
PosC(n) == CASE n = 1 -> <<"CartesianPos1D", "RadialPos">> [] n = 2 -> <<"CartesianPos2D", "PolarPos">>
             [] n = 3 -> <<"CartesianPos3D", "CylindricalPos", "SphericalPos", "LonLatSphericalPos", "MathSphericalPos", "ProlateSpheroidalPos">>
Pr(x, y, form, mode) == [op |-> "arith", d |-> "r", f |-> "prod", a |-> <<x, y>>, form |-> form, mode |-> mode]
Prods(n, i) ==
  LET cs == PosC(n)
      c == cs[i]
      e == At(cs, i + SEED)
      \* on the focal segment rounding under the root shows: compiled evaluation is compared elsewhere (P22)
      jit == IF "ProlateSpheroidalPos" \in {c, e} THEN "eager" ELSE "jit"
  IN S0("prod-" \o c, i, At(<<0, 2>>, i), 64,
       << LitAny("x", c, <<3>>, Spread(c, <<3>>), i, U(i)), LitAny("y", e, <<3>>, << <<3>> >>, i + 4, U(i + 1)), LitAny("o", e, <<>>, << <<>> >>, i + 2, U(i)), LitAny("o2", c, <<>>, << <<>> >>, i + 5, U(i + 2)),
          Pr("x", "y", "op", "eager"), Pr("x", "x", "func", "eager"), Pr("o", "o2", "op", "eager"), Pr("o2", "o", "func", jit), Pr("y", "x", "op", jit) >>)
\* rows with rational length
Dirs == << <<Z(3), R0, Z(4)>>, <<Z(1), Z(-2), Z(2)>>, <<Z(-2), Z(3), Z(6)>>, <<R0, Z(-5), R0>>, <<Z(4), Z(-4), Z(7)>>, <<<<3, 2>>, <<-1, 1>>, <<3, 1>>>> >>
Dirs2 == << <<Z(3), Z(-4)>>, <<Z(-5), Z(12)>>, <<R0, Z(2)>>, <<Z(8), Z(15)>> >>
Q(d, rows, sh, kd, un) == [op |-> "litq", d |-> d, vals |-> FlatRows(rows), shape |-> sh \o << Len(rows[1]) >>, kind |-> kd, u |-> un]
Ud(q, form, mode) == [op |-> "unitdir", d |-> "r", a |-> <<q>>, form |-> form, mode |-> mode]
ScDir == << S0("dir3", 1, 0, 64, FlattenAll([k \in 1..3 |-> LET kd == <<"len", "len/t", "len/t2">>[k] IN
               << Q("q", Dirs, <<6>>, kd, ""), Ud("q", "q", "eager"), Ud("q", "array", "eager"), Ud("q", "q", "vmap"), Q("q", Dirs, <<2, 3>>, kd, ""), Ud("q", "q", "jit"),
                  Q("q", << Dirs[k] >>, <<>>, kd, ""), Ud("q", "q", "eager"), Ud("q", "array", "jit") >>])),
            S0("dir2", 2, 0, 64, << Q("q", Dirs2, <<4>>, "len", "pc"), Ud("q", "q", "eager"), Q("q", Dirs2, <<2, 2>>, "len/t", "km / s"), Ud("q", "q", "eager"), Ud("q", "q", "jit") >>),
            S0("dirpos", 1, 4, 64, FlattenAll([k \in 1..4 |-> LET sh == << <<6>>, <<2, 3>>, <<>>, <<6>> >>[k]
                                                                rows == IF k = 3 THEN << Dirs[2] >> ELSE Dirs IN
               << [op |-> "lit", d |-> "p", cls |-> "CartesianPos3D", shape |-> sh, comps |-> rows, u |-> U(k)], Ud("p", "pos", At(<<"eager", "jit", "eager", "vmap">>, k)) >>])),
            S0("dir32", 3, 0, 32, << Q("q", Dirs, <<6>>, "len", ""), Ud("q", "q", "eager"), Ud("q", "array", "jit") >>) >>
G3(f, mode) == [op |-> "gen3", d |-> "r", a |-> <<"q">>, f |-> f, mode |-> mode]
ScGen == [k \in 1..4 |-> LET kd == <<"len", "len/t", "len/t2", "len">>[k] IN
  S0("gen3-" \o ToString(k), k, 0, 64, << Q("q", Dirs, <<6>>, kd, ""), G3("id", "eager"), G3("neg", "jit"), G3("last", "eager"), Q("q", Dirs, <<2, 3>>, kd, ""), G3("ravel", "eager"), G3("neg", "eager"), G3("last", "jit"),
     Q("q", << Dirs[k] >>, <<>>, kd, ""), G3("id", "jit"), G3("neg", "eager"), Q("q", Dirs2, <<4>>, kd, ""), G3("id", "eager"), Q("q", << <<Z(1), Z(2), Z(3), Z(4)>> >>, <<>>, kd, ""), G3("id", "eager") >>)]
AllC == AllCls \o AllND
All32 == SelectSeq(AllC, LAMBDA c : ~(BasePos(c) \in {"SphericalPos", "MathSphericalPos", "LonLatSphericalPos", "ProlateSpheroidalPos"}))
Scenarios == FlattenAll([r \in 1..(IF Thorough THEN 6 ELSE 1) |-> [i \in DOMAIN AllC |-> LET s == Vec(AllC[i], i + 3 * (r + SEED - 2)) IN [s EXCEPT !.id = @ \o "-" \o ToString(r)]]])
             \o [i \in DOMAIN All32 |-> Vec32(All32[i], i)]
             \o FlattenAll([n \in 1..3 |-> [i \in DOMAIN PosC(n) |-> Prods(n, i)]]) \o ScDir \o ScGen
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
