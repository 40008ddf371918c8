------------------------------ MODULE GenAstro ------------------------------
(* P20: positions, velocities, distances, angles and frames exchanged with    *)
(* astropy, in both directions, against each library's own changes.          *)
EXTENDS OpsLib
Nat4 == <<"CartesianPos3D", "CylindricalPos", "SphericalPos", "LonLatSphericalPos">>
Vel5 == <<"CartesianVel3D", "CylindricalVel", "SphericalVel", "LonLatSphericalVel", "LonCosLatSphericalVel">>
C5 == Nat4 \o <<"MathSphericalPos">>
UA == << [len |-> <<"km", "km", "m">>, ang |-> <<"rad">>, time |-> "s"], [len |-> <<"kpc", "lyr", "pc">>, ang |-> <<"deg", "arcmin", "rad">>, time |-> "Myr"],
         [len |-> <<"pc", "lyr", "kpc">>, ang |-> <<"deg", "rad">>, time |-> "yr"], [len |-> <<"AU", "AU", "km">>, ang |-> <<"hourangle", "arcmin">>, time |-> "kyr"] >>
Ui(i) == At(UA, i)
\* one unit for each dimension: astropy's Cartesian components must share theirs
U1(i) == LET w == Ui(i) IN [len |-> << w.len[1] >>, ang |-> << w.ang[1] >>, time |-> w.time]
\* sin of 12 hour angles falls below zero in double precision: a point on the axis is then refused by the cylindrical class
UP(c, i) == IF c = "SphericalPos" /\ i % 4 = 0 THEN U1(3) ELSE U1(i)
\* radius and height, and the two angles of a direction, may have units of their own
UD(c, i) == IF c = "CartesianVel3D" THEN U1(i) ELSE Ui(i)
BaseA(i) == At(<< [len |-> "km", time |-> "s"], [len |-> "kpc", time |-> "Myr"], [len |-> "pc", time |-> "yr"], [len |-> "AU", time |-> "yr"] >>, i)
Sc(id, i, steps) == S0(id, BaseA(i), 0, 64, steps)
Fr(d, a, c, form) == [op |-> "fromap", d |-> d, a |-> <<a>>, cls |-> c, form |-> form]
To(d, a, to) == [op |-> "toap", d |-> d, a |-> <<a>>, to |-> to]
Ar(d, a, c) == [op |-> "aprep", d |-> d, a |-> a, cls |-> c]
Rp(d, a, c) == [op |-> "rep", d |-> d, a |-> <<a>>, cls |-> c, kw |-> <<>>, mode |-> "eager"]
Rd(d, v, p, c) == [op |-> "repd", d |-> d, a |-> <<v, p>>, cls |-> c, kw |-> <<>>, mode |-> "eager"]
AsAp(st) == [st EXCEPT !.op = "litap"]
Shp(i) == At(<< <<4>>, <<>>, <<2, 2>>, <<1>>, <<2, 1, 3>> >>, i)
LitPts(d, c, pts, shape, un) == [LitOf(d, c, pts, R1, un) EXCEPT !.shape = shape]
PtsN(n, o) == [j \in 1..n |-> At(Pts3Few, 5 * o + j)]
PtsNF(n, o) == [j \in 1..n |-> At(Pts3Full, 7 * o + j)]
PtsNR(n, o) == [j \in 1..n |-> At(Pts3Reg, 7 * o + j)]
\* astropy's value into every class, from there into every class of astropy
ScIn(c, k) ==
  LET sh == Shp(k)
      n == SizeOf(sh)
      \* (astropy loses half the digits of a direction on the axis when the units are mixed)
      mixed == c = "CylindricalPos" /\ k % 2 = 0
  IN Sc("in-" \o c \o "-" \o ToString(k), k,
       << AsAp(LitPts("x", c, IF mixed THEN PtsNR(n, k) ELSE IF k % 2 = 0 THEN PtsNF(n, k) ELSE PtsN(n, k), sh, IF mixed THEN Ui(k) ELSE UP(c, k))), Fr("y", "x", "AbstractPos3D", "from"), Fr("y", "x", c, "conv"), To("z", "y", "Base"), Fr("w", "z", c, "conv") >>
       \o FlattenAll([j \in 1..5 |-> << Fr("y" \o C5[j], "x", C5[j], "from"), To("q", "y" \o C5[j], "Quantity") >>])
       \o FlattenAll([j \in 1..4 |-> << To("b", "y" \o Nat4[j], "Base"), To("z", "y" \o Nat4[j], At(Nat4, j + k)), Fr("w", "z", At(Nat4, j + k), "conv"), To("z", "y" \o Nat4[j], At(Nat4, j + k + 1)),
                                        Fr("w", "z", At(C5, j + 2 * k), "from"), Ar("z", <<"x">>, Nat4[j]), Fr("w", "z", At(C5, j + k), "from") >>])
       \o << Fr("e", "x", "ProlateSpheroidalPos", "from"), Fr("e", "x", "CartesianPos2D", "from"), Fr("e", "x", "RadialPos", "from"), Fr("e", "x", "CartesianVel3D", "from"), Fr("e", "x", "CartesianAcc3D", "from"),
             Fr("e", "x", At(<<"CylindricalVel", "SphericalVel", "AbstractVel3D", "LonLatSphericalVel">>, k), "from"),
             [with |-> (c = "CartesianPos3D")] @@ AsAp(LitPts("xv", c, PtsNR(n, k), sh, U1(k + 1))), Fr("w", "xv", At(C5, k), "from"), Fr("w", "xv", c, "from") >>)
\* a vector into every class of astropy, changed there, and back
ScOut(c, k) ==
  LET sh == Shp(k + 1)
      n == SizeOf(sh)
  IN Sc("out-" \o c \o "-" \o ToString(k), k + 1,
       << LitPts("x", c, IF k % 2 = 0 THEN PtsN(n, k) ELSE PtsNF(n, k), sh, Ui(k)), To("q", "x", "Quantity") >> \o (IF c = "MathSphericalPos" THEN << Rp("x", "x", "SphericalPos") >> ELSE <<>>) \o
       << To("b", "x", "Base"), Fr("w", "b", c, "from") >>
       \o FlattenAll([j \in 1..4 |-> << To("b", "x", Nat4[j]), Fr("w", "b", "AbstractPos3D", "from"), Ar("r", <<"b">>, At(Nat4, j + k)), Fr("w", "r", c, "from"), Rp("v", "x", Nat4[j]), To("q", "v", "Quantity"), To("b", "v", Nat4[j]) >>]))
\* where the library's limits are: every winding, either sign, the poles
Edge(c, k) ==
  LET un == UP(c, k)
      w(i) == (i % 4) - 1
      az(i) == LET a == At(Az12, i) IN <<a[1], a[2], w(i)>>
      len(i) == At(Radii, i)
      row(i) == CASE c = "CylindricalPos" -> <<len(i), az(i), Z((i % 5) - 2)>>
                  [] c = "SphericalPos" -> <<len(i), At(Pol8, i), az(i)>>
                  [] c = "LonLatSphericalPos" -> <<az(i), At(LatPool, i), len(i)>>
      neg(i) == CASE c = "CylindricalPos" -> <<RNeg(len(i)), az(i), Z(1)>>
                  [] c = "SphericalPos" -> <<RNeg(len(i)), At(PolIn, i), az(i)>>
                  [] c = "LonLatSphericalPos" -> <<az(i), At(LatPool, i), RNeg(len(i))>>
      L(d, rows, sh) == [op |-> "litap", d |-> d, cls |-> c, shape |-> sh, delta |-> R1, comps |-> rows, u |-> un]
      wr == IF c = "LonLatSphericalPos" THEN <<180, 0, 90, 360>> ELSE <<0>>
  IN Sc("edge-" \o c \o "-" \o ToString(k), k,
       FlattenAll([m \in DOMAIN wr |-> << (IF wr[m] = 0 THEN L("x", [i \in 1..12 |-> row(i + k)], <<12>>) ELSE [wrap |-> wr[m]] @@ L("x", [i \in 1..12 |-> row(i + k + m)], <<12>>)),
            Fr("y", "x", c, "from"), Fr("y", "x", c, "conv"), Fr("y", "x", "AbstractPos3D", "from"), To("z", "y", "Base"), Fr("y", "x", At(C5, k + m), "from"), Fr("y", "x", At(C5, k + m + 1), "from") >>])
       \o << L("n", <<neg(k)>>, <<>>), Fr("e", "n", c, "from"), Fr("e", "n", c, "conv"), Fr("e", "n", "AbstractPos3D", "from"), L("n", <<row(k), row(k + 1), neg(k)>>, <<3>>), Fr("e", "n", c, "from") >>)
ScBad == << Sc("bad", 1, FlattenAll([b \in 1..4 |-> LET w == At(<<"unit", "radial", "dim", "difdim">>, b) IN
     << [op |-> "litap", d |-> "x", cls |-> "", bad |-> w] >>
     \o (IF w = "difdim" THEN << Fr("e", "x", "CartesianVel3D", "from"), Fr("e", "x", "AbstractVel3D", "from"), Fr("e", "x", "CartesianVel3D", "conv"), Fr("e", "x", "CartesianPos3D", "from") >>
         ELSE [i \in 1..4 |-> Fr("e", "x", Nat4[i], "from")] \o << Fr("e", "x", "AbstractPos3D", "from") >>)])
     \o << [op |-> "apframe", d |-> "f", cls |-> "ICRS", data |-> FALSE], [op |-> "apframe", d |-> "f", cls |-> "ICRS", data |-> TRUE],
           [op |-> "apframe", d |-> "f", cls |-> "Galactocentric", data |-> FALSE], [op |-> "apframe", d |-> "f", cls |-> "Galactocentric", data |-> TRUE] >>) >>
\* velocities: each library changes their class its own way, at the same position
V3(i) == At(<<ZV(1, 2, -2), ZV(-2, 0, 3), ZV(4, -1, 1), ZV(0, 3, 2), ZV(2, 3, -6)>>, i)
ScVel(n, k) ==
  LET c == Vel5[n]
      pc == PosOfDif(c)
      sh == At(<< <<3>>, <<>>, <<2, 2>> >>, k)
      m == SizeOf(sh)
      pts == PtsNR(m, n + k)
      rows == [i \in 1..m |-> FromCart(c, V3(i + k + n), pts[i], R1)]
      T(j) == At(Vel5, j)
      fam(j) == PosOfDif(T(j))
  IN Sc("vel-" \o c \o "-" \o ToString(k), n + k,
       << LitPts("p", pc, pts, sh, U1(k)), LitV("v", c, rows, sh, UD(c, k)), AsAp(LitPts("ap", pc, pts, sh, U1(k + 1))), AsAp(LitV("av", c, rows, sh, UD(c, k + 1))),
          To("b", "v", "Base"), Fr("w", "b", c, "from"), To("b", "v", c), Fr("w", "b", "AbstractVel3D", "from"), Fr("w", "b", c, "conv") >>
       \o (IF n = 1 THEN << To("q", "v", "Quantity") >> ELSE <<>>)
       \o FlattenAll([j \in 1..5 |->
            << Fr("w", "av", T(j), "from") >>
            \o (IF j = n THEN << Fr("g", "av", T(j), "conv"), Fr("g", "av", "AbstractVel3D", "from") >> \o [i \in 1..5 |-> Rd("h", "g", T(i), "p")]
                ELSE << Ar("r", <<"av", "ap">>, T(j)), Fr("g", "r", T(j), "from"), Rd("h", "v", "p", T(j)), To("b", "h", "Base"),
                        Ar("rp", <<"ap">>, fam(j)), Ar("r2", <<"b", "rp">>, c), Fr("h", "r2", c, "conv"), Fr("gp", "rp", fam(j), "from"), Rd("h", "g", "gp", c) >>)])
       \o << Fr("e", "av", "MathSphericalVel", "from"), Fr("e", "av", "CartesianPos3D", "from"), Fr("e", "av", "AbstractPos3D", "from"), Fr("e", "av", "CartesianAcc3D", "from"), Fr("e", "av", "CartesianVel2D", "from") >>)
\* a velocity has no other form without a position: nothing to convert to. Twenty fixed cases, the same for every seed.
ScVelTo == [n \in 1..5 |-> LET c == Vel5[n] IN Sc("velto-" \o c, n,
   << LitV("v", c, <<FromCart(c, V3(n), Pts3Reg[n], R1)>>, <<>>, U1(n)) >> \o [j \in 1..4 |-> To("e", "v", At(Vel5, n + j))])]
\* quantities and mappings
Carts == << <<"CartesianPos1D", 1, "len">>, <<"CartesianPos2D", 2, "len">>, <<"CartesianPos3D", 3, "len">>, <<"CartesianVel1D", 1, "len/t">>, <<"CartesianVel2D", 2, "len/t">>, <<"CartesianVel3D", 3, "len/t">>,
            <<"CartesianAcc1D", 1, "len/t2">>, <<"CartesianAcc2D", 2, "len/t2">>, <<"CartesianAcc3D", 3, "len/t2">>, <<"AbstractPos3D", 3, "len">>, <<"AbstractVel3D", 3, "len/t">>, <<"AbstractAcc3D", 3, "len/t2">>,
            <<"CartesianPosND", 4, "len">>, <<"CartesianVelND", 2, "len/t">>, <<"CartesianAccND", 3, "len/t2">>, <<"RadialPos", 1, "len">>, <<"RadialVel", 1, "len/t">>, <<"RadialAcc", 1, "len/t2">> >>
QUnits(kd) == CASE kd = "len" -> <<"km", "kpc", "m", "AU">> [] kd = "len/t" -> <<"km / s", "kpc / Myr", "m / h", "AU / yr">> [] kd = "len/t2" -> <<"km / s2", "kpc / Myr2", "m / h2", "pc / yr2">>
Cq(t, i, shape, n, kd) ==
  [op |-> "ctor", d |-> "x", cls |-> t, form |-> "apq", shape |-> shape, comps |-> [e \in 1..SizeOf(shape) |-> [j \in 1..n |-> Rn(7 * e + 3 * j + 2 * i, ((e + j + i) % 3) + 1)]], kind |-> kd,
   unit |-> At(QUnits(kd), i), unit_as |-> "unit", mode |-> "eager"]
Oth(kd) == CASE kd = "len" -> "len/t" [] kd = "len/t" -> "len/t2" [] OTHER -> "len"
ScQ(t, k) == Sc("q-" \o t[1] \o "-" \o ToString(k), k,
  [j \in 1..4 |-> Cq(t[1], k + j, Shp(k + j), t[2], t[3])] \o << [bad |-> "dim"] @@ Cq(t[1], k, <<2>>, t[2], Oth(t[3])) >>
  \o (IF t[2] >= 2 /\ ~(t[1] \in {"CartesianPosND", "CartesianVelND", "CartesianAccND", "CartesianVel3D", "AbstractVel3D"}) THEN << [bad |-> "size"] @@ Cq(t[1], k, <<3>>, t[2] + 1, t[3]), [bad |-> "size"] @@ Cq(t[1], k + 1, <<>>, t[2] - 1, t[3]) >> ELSE <<>>)
  \o (IF t[1] \in {"CartesianPos3D", "CartesianVel3D", "CartesianAcc3D"} THEN << Cq(t[1], k, Shp(k), 3, t[3]), To("q", "x", "Quantity") >> ELSE <<>>))
CtL(how, c, shape, bs, salt, un, rev) == [form |-> how, mode |-> "eager", rev |-> rev] @@ [LitAny("x", c, shape, bs, salt, un) EXCEPT !.op = "ctor"]
ScMap(c, k) == Sc("map-" \o c \o "-" \o ToString(k), k, IF c = "ProlateSpheroidalPos" THEN << CtL("apkw", c, Shp(k), Spread(c, Shp(k)), k, U(k), FALSE), CtL("apkw", c, <<>>, << <<>> >>, k, U(k + 1), TRUE) >> ELSE << CtL("apmap", c, Shp(k), Spread(c, Shp(k)), k, U(k), FALSE), CtL("apkw", c, Shp(k + 1), Spread(c, Shp(k + 1)), k + 1, U(k + 1), TRUE), CtL("apmap", c, <<>>, << <<>> >>, k + 2, U(k + 2), FALSE) >>)
\* distances and angles
SAU == [len |-> "AU", time |-> "yr"]
SPC == [len |-> "pc", time |-> "yr"]
Ld(d, cls, kd, shape, vals, un, form) == [op |-> "litd", d |-> d, cls |-> cls, kd |-> kd, shape |-> shape, vals |-> vals, u |-> un, form |-> form, mode |-> "eager"]
Cv(d, a, to, sc, form) == [op |-> "dconv", d |-> d, a |-> <<a>>, to |-> to, sc |-> sc, form |-> form, mode |-> "eager"]
Kds == << <<"Distance", "len", "AU">>, <<"Parallax", "ang", "AU">>, <<"Distance", "len", "pc">>, <<"Parallax", "arc", "pc">>, <<"DistanceModulus", "mag", "pc">>, <<"Angle", "ang", "AU">> >>
DUn(kd, sc) == CASE kd = "len" -> (IF sc = "AU" THEN <<"AU", "km", "lyr", "m">> ELSE <<"pc", "kpc", "lyr", "Mpc">>) [] kd = "ang" -> <<"deg", "rad", "arcmin", "hourangle">> [] kd = "arc" -> <<"mas", "arcsec", "deg", "uas">> [] OTHER -> <<"mag">>
ValD(kd, sc, i) == CASE kd = "len" -> (IF sc = "AU" THEN At(<< <<3, 4>>, <<4, 3>>, <<12, 5>>, Z(2), <<7, 24>>, <<5, 2>> >>, i) ELSE At(<< Z(10), Z(100), Z(4), <<1, 10>>, <<5, 2>> >>, i))
                     [] kd = "ang" -> At(<< A(3,5,4,5), A(4,5,3,5), A(12,13,5,13), A(5,13,12,13), A(15,17,8,17) >>, i) [] kd = "arc" -> At(<< <<1, 10>>, <<1, 4>>, <<1, 1000>>, <<1, 2>> >>, i) [] OTHER -> At(<< Z(0), Z(5), Z(10), Z(-5), Z(-1), Z(-3) >>, i)
Vd(kd, sc, n, o) == [i \in 1..n |-> ValD(kd, sc, i + o)]
ScD(n, k) ==
  LET t == Kds[n]
      sh == At(<< <<4>>, <<>>, <<2, 2>> >>, k)
      m == SizeOf(sh)
      us == DUn(t[2], t[3])
      L(i, form) == Ld("x", t[1], t[2], sh, Vd(t[2], t[3], m, k + i), At(us, i + k), form)
      back == IF t[1] = "DistanceModulus" THEN << Cv("y", "x", "Quantity", t[3], "ap"), Cv("y", "x", "Distance", t[3], "prop"), Cv("z", "y", "Quantity", t[3], "ap") >>
              ELSE << Cv("y", "x", "Quantity", t[3], "ap") >>
  IN [dist |-> TRUE] @@ S0("d-" \o t[1] \o "-" \o t[2] \o t[3] \o "-" \o ToString(k), IF t[3] = "AU" THEN SAU ELSE SPC, 0, 64,
       FlattenAll([i \in 1..3 |-> << L(i, "apfrom") >> \o back])
       \o (IF t[1] = "Angle" THEN << [obj |-> "Angle"] @@ L(4, "apobj"), [obj |-> "Longitude"] @@ L(5, "apobj"), [obj |-> "Latitude"] @@ L(6, "apobj"), Cv("y", "x", "Quantity", t[3], "apsub") @@ [obj |-> "Angle"] >>
           ELSE FlattenAll([i \in 1..2 |-> << L(i + 3, "apconv") >> \o back]))
       \o (IF t[1] = "Parallax" THEN << [obj |-> "Angle"] @@ L(4, "apobj"), [obj |-> "Angle"] @@ L(5, "apobjconv"), Cv("y", "x", "Distance", t[3], "prop"), Cv("z", "y", "Quantity", t[3], "apsub") >> ELSE <<>>)
       \o (IF t[1] = "Distance" THEN << [obj |-> "Distance"] @@ L(4, "apobj"), [obj |-> "Distance"] @@ L(5, "apobjconv"), Cv("y", "x", "Quantity", t[3], "apsub"), Cv("y", "x", "Parallax", t[3], "prop"), Cv("z", "y", "Quantity", t[3], "ap") >> ELSE <<>>)
       \o FlattenAll([f \in 1..2 |-> LET form == IF f = 1 THEN "apfrom" ELSE "apconv" IN
            IF t[1] = "Angle" /\ f = 2 THEN <<>> ELSE
            [w \in 1..2 |-> [bad |-> "dim"] @@ Ld("e", t[1], "len", <<2>>, <<R1, Z(2)>>, At(CASE t[1] = "Distance" -> <<"s", "rad">> [] t[1] = "Parallax" -> <<"km", "mag">> [] t[1] = "DistanceModulus" -> <<"pc", "rad">> [] OTHER -> <<"km", "s">>, w), form)]])
       \o (IF t[1] = "Parallax" THEN << Ld("e", "Parallax", "ang", <<>>, << AngNeg(A(4,5,3,5)) >>, "mas", "apfrom"), Ld("e", "Parallax", "ang", <<2>>, << A(4,5,3,5), AngNeg(A(4,5,3,5)) >>, "deg", "apconv") >> ELSE <<>>))
NT == IF Thorough THEN 8 ELSE 1
Rep(F(_)) == FlattenAll([r \in 1..NT |-> F(r + SEED - 1)])
Scenarios ==
  Rep(LAMBDA r : [i \in 1..4 |-> ScIn(Nat4[i], 3 * r + i)]) \o Rep(LAMBDA r : [i \in 1..4 |-> ScIn(Nat4[i], 3 * r + i + 1)]) \o Rep(LAMBDA r : [i \in 1..5 |-> ScOut(C5[i], 3 * r + i)])
  \o Rep(LAMBDA r : [i \in 1..3 |-> Edge(Nat4[i + 1], r + i)]) \o ScBad
  \o ScVelTo \o Rep(LAMBDA r : [i \in 1..5 |-> ScVel(i, r)])
  \o Rep(LAMBDA r : [i \in DOMAIN Carts |-> ScQ(Carts[i], r + i)]) \o Rep(LAMBDA r : [i \in DOMAIN AllCls |-> ScMap(AllCls[i], r + i)])
  \o Rep(LAMBDA r : [i \in DOMAIN Kds |-> ScD(i, r)])
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
