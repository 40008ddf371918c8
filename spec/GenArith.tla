------------------------------ MODULE GenArith ------------------------------
(* Vector arithmetic: every ordered pair of representations of one          *)
(* dimension for + and -, every representation for the unary and scalar     *)
(* operations, all factor signs and number types, both operand orders.      *)
EXTENDS Lat, IOUtils
Thorough == IOEnv.TIER = "thorough"
C3 == <<"CartesianPos3D", "CylindricalPos", "SphericalPos", "LonLatSphericalPos", "MathSphericalPos", "ProlateSpheroidalPos">>
C2 == <<"CartesianPos2D", "PolarPos">>
C1 == <<"CartesianPos1D", "RadialPos">>
S0(id, i, mag, prec, steps) == [id |-> id, base |-> BaseFor(i), mag |-> mag, prec |-> prec, steps |-> steps]
Ar(d, f, a, form, mode) == [op |-> "arith", d |-> d, f |-> f, a |-> a, form |-> form, mode |-> mode]
Sc(d, f, a, s, side, num, form, mode) ==
  [op |-> "arith", d |-> d, f |-> f, a |-> <<a>>, s |-> s, side |-> side, num |-> num, form |-> form, mode |-> mode]
LitP(d, pc, pts, shape, un) == [LitOf(d, pc, pts, Z(2), un) EXCEPT !.shape = shape]
Lit2(d, pc, pts, shape, un, dl) == [LitOf(d, pc, pts, dl, un) EXCEPT !.shape = shape]

\* points whose components are nameable in every chart involved
SP(k) == Clip(Pts3Reg0, k, k + 5)
PP == << ProPt(Z(2), Hyp[1], CosV[1], AngZero), ProPt(Z(2), Hyp[1], CosV[4], A(3,5,4,5)),
         ProPt(Z(2), Hyp[2], CosV[2], Ang90), ProPt(Z(2), Hyp[2], CosV[5], A(-4,5,-3,5)),
         ProPt(Z(2), Hyp[1], CosV[2], Ang180), ProPt(Z(2), Hyp[3], CosV[1], A(4,5,-3,5)) >>
AxisP == << Decode("SphericalPos", <<Z(5), AngZero, AngZero>>, R1), Decode("SphericalPos", <<Z(2), Ang180, AngZero>>, R1),
            VZero(3), Decode("SphericalPos", <<Z(3), Ang90, Ang270>>, R1),
            Decode("SphericalPos", <<Z(3), A(3,5,4,5), Ang180>>, R1), Decode("SphericalPos", <<<<5,2>>, Ang90, AngZero>>, R1) >>
PtsA(c, k) == IF c = "ProlateSpheroidalPos" THEN PP ELSE SP(k)
Facs == << <<Z(2), "int">>, <<Z(-3), "int">>, <<<<1, 2>>, "float">>, <<<<-5, 4>>, "np">>, <<Z(-1), "jnp">>, <<R0, "float">>, <<<<3, 2>>, "jnp">> >>
Forms == <<"op", "func">>
Scalars(x, i, mode, few) ==
  FlattenAll([k \in (IF few THEN 1..3 ELSE DOMAIN Facs) |-> LET f == Facs[IF few THEN <<1, 2, 4>>[k] ELSE k] IN
     << Sc("m", "mul", x, f[1], "L", f[2], At(Forms, k + i), mode), Sc("m", "mul", x, f[1], "R", f[2], At(Forms, k + i + 1), mode) >>
     \o (IF f[1] = R0 THEN <<>> ELSE << Sc("q", "div", x, f[1], "R", f[2], At(Forms, k), mode) >>)])
Unary(x, mode) == << Ar("n", "neg", <<x>>, "op", mode), Ar("n", "neg", <<x>>, "func", mode), Ar("o", "pos", <<x>>, "op", mode),
               Ar("l", "norm", <<x>>, "op", mode), Ar("l", "abs", <<x>>, "op", mode), Ar("nn", "neg", <<"n">>, "op", mode) >>
\* add, subtract, and take back
Pair(x, y, f, mode) == << Ar("s", "add", <<x, y>>, f, mode), Ar("d", "sub", <<x, y>>, f, mode),
                 Ar("e", "sub", <<"s", y>>, "op", mode), Ar("g", "add", <<"d", y>>, "op", mode) >>
One(cs, i, pf, shape, ui, mode, few) ==
  LET s == cs[i] IN
  << LitP("x", s, pf[i], shape, U(ui)) >> \o Unary("x", mode) \o Scalars("x", i, mode, few)
Two(cs, i, pf, qf, shape, ui, mode) ==
  << LitP("x", cs[i], pf[i], shape, U(ui)) >>
  \o FlattenAll([j \in DOMAIN cs |->
       << LitP("y" \o ToString(j), cs[j], qf[j], shape, U(ui + j)) >> \o Pair("x", "y" \o ToString(j), At(Forms, i + j), mode)])
PF(cs, k) == [i \in DOMAIN cs |-> PtsA(cs[i], k)]
Sc3 == FlattenAll([i \in 1..6 |->
  << S0("un-" \o C3[i], i, 0, 64, One(C3, i, PF(C3, 1), <<6>>, i, "eager", FALSE)),
     S0("unm-" \o C3[i], i + 1, At(<<7, -9, 4>>, i), 64, One(C3, i, PF(C3, 7), <<6>>, i + 1, "eager", TRUE)),
     S0("unshape-" \o C3[i], i + 2, 0, 64, One(C3, i, PF(C3, 13), <<2, 3>>, i + 2, "eager", TRUE)),
     S0("unjit-" \o C3[i], i + 3, 0, 64, One(C3, i, PF(C3, 3), <<6>>, i + 3, "jit", TRUE)),
     S0("two-" \o C3[i], i, 0, 64, Two(C3, i, PF(C3, 2), PF(C3, 9), <<6>>, i, "eager")),
     S0("twoshape-" \o C3[i], i + 1, At(<<0, 3, -4>>, i), 64, Two(C3, i, PF(C3, 10), PF(C3, 5), <<3, 2>>, i + 2, "eager")) >>])
Sub1(f) == [i \in DOMAIN f |-> <<f[i][2]>>]
Sc3b == FlattenAll([i \in 1..6 |->
  << S0("unscal-" \o C3[i], i + 1, 0, 64, One(C3, i, Sub1(PF(C3, 4)), <<>>, i + 4, "eager", TRUE)),
     S0("twoscal-" \o C3[i], i + 2, 0, 64, Two(C3, i, Sub1(PF(C3, 4)), Sub1(PF(C3, 8)), <<>>, i + 3, "eager")),
     S0("twojit-" \o C3[i], i + 2, 0, 64, Two(C3, i, Sub1(PF(C3, 4)), Sub1(PF(C3, 8)), <<>>, i + 3, "jit")) >>])
\* on the axis and at the origin (spherical family)
ScAx == [i \in 1..5 |-> S0("axis-" \o C3[i], i, 0, 64,
   << LitP("x", C3[i], AxisP, <<6>>, U(i)) >> \o Unary("x", "eager") \o Scalars("x", i, "eager", TRUE)
   \o << LitP("y", C3[(i % 5) + 1], AxisP, <<6>>, U(i + 1)) >> \o Pair("x", "y", "op", "eager")) ]
\* two focal lengths: the left operand's is kept
ScPro == << S0("twofocal", 1, 0, 64, << Lit2("x", "ProlateSpheroidalPos", PP, <<6>>, U(1), Z(2)),
               Lit2("y", "ProlateSpheroidalPos", ProPts(Z(1), Hyp, <<CosV[1], CosV[2]>>, AzFew), <<6>>, U(3), Z(1)) >>
               \o Pair("x", "y", "op", "eager") \o Pair("y", "x", "op", "eager")) >>
\* two dimensions
Q2(k) == [n \in 1..6 |-> Decode("PolarPos", <<At(Radii, n + k), At(Az12, n + 2 * k)>>, R1)]
PF2(k) == <<Q2(k), Q2(k)>>
Sc2 == FlattenAll([i \in 1..2 |->
  << S0("un-" \o C2[i], i, 0, 64, One(C2, i, PF2(1), <<6>>, i, "eager", FALSE)),
     S0("unshape-" \o C2[i], i + 2, 7, 64, One(C2, i, PF2(2), <<2, 3>>, i + 2, "eager", TRUE)),
     S0("unjit-" \o C2[i], i + 3, 0, 64, One(C2, i, PF2(3), <<6>>, i + 3, "jit", TRUE)),
     S0("unscal-" \o C2[i], i + 3, 0, 64, One(C2, i, Sub1(PF2(3)), <<>>, i + 3, "eager", TRUE)),
     S0("two-" \o C2[i], i, 0, 64, Two(C2, i, PF2(2), PF2(5), <<6>>, i, "eager")),
     S0("two32-" \o C2[i], i, 0, 32, Two(C2, i, PF2(2), PF2(5), <<6>>, 1, "eager")),
     S0("twoshape-" \o C2[i], i + 1, -4, 64, Two(C2, i, PF2(4), PF2(1), <<3, 2>>, i + 1, "eager")) >>])
\* one operand's batch stretches to the other's; a divisor of each element's own
Div(x, k, sh) == [op |-> "arith", d |-> "q", f |-> "div", a |-> <<x>>, ss |-> Clip(<<Z(2), Z(-4), <<1, 2>>, <<5, 4>>, Z(-1), Z(8)>>, k, k + SizeOf(sh) - 1), sshape |-> sh, form |-> "op", mode |-> "eager"]
Stretch(cs, i, f, g) ==
  LET c == cs[i]
      n == Len(cs)
      js == <<(i % n) + 1, ((i + 2) % n) + 1>>
      L(d, cl, pts, sh) == LitP(d, cl, pts, sh, U(i + Len(sh)))
  IN << L("x", c, Clip(f, 1, 3), <<3>>), L("o", c, Clip(f, 4, 4), <<>>), L("w", c, Clip(f, 2, 3), <<2, 1>>), Div("x", 1, <<3>>), Div("o", 2, <<2>>), Div("w", 3, <<2, 1>>), Div("w", 1, <<1, 3>>), Div("x", 3, <<1>>) >>
     \o FlattenAll([m \in 1..2 |-> LET k == cs[js[m]] IN
          << L("y", k, Clip(g, 3, 5), <<3>>), L("p", k, Clip(g, 2, 2), <<>>), L("z", k, Clip(g, 1, 3), <<1, 3>>), L("y1", k, Clip(g, 6, 6), <<1>>),
             Ar("s", "add", <<"x", "p">>, At(Forms, m), "eager"), Ar("d", "sub", <<"x", "p">>, "op", "eager"), Ar("s", "add", <<"o", "y">>, "op", "eager"), Ar("d", "sub", <<"o", "y">>, At(Forms, m + 1), "eager"),
             Ar("s", "add", <<"w", "z">>, "op", "eager"), Ar("d", "sub", <<"w", "z">>, "op", "eager"), Ar("e", "add", <<"d", "z">>, "op", "eager"), Ar("d", "sub", <<"x", "y1">>, "op", "eager"),
             Ar("d", "sub", <<"w", "p">>, "op", "jit"), Ar("s", "add", <<"o", "z">>, "op", "jit") >>])
ScStretch == [i \in 1..5 |-> S0("stretch-" \o C3[i], i, 0, 64, Stretch(SubSeq(C3, 1, 5), i, SP(2), SP(9)))]
  \o [i \in 1..2 |-> S0("stretch-" \o C2[i], i, 0, 64, Stretch(C2, i, Q2(1), Q2(4)))]
\* one dimension: a radius may not become negative
P1a == <<<<Z(3)>>, <<<<5, 2>>>>, <<Z(7)>>, <<R0>>>>
P1b == <<<<Z(1)>>, <<<<1, 2>>>>, <<Z(6)>>, <<R0>>>>
Sc1 == FlattenAll([i \in 1..2 |->
  << S0("un-" \o C1[i], i, 0, 64, One(C1, i, <<P1a, P1a>>, <<4>>, i, "eager", FALSE)),
     S0("unshape-" \o C1[i], i + 1, -9, 64, One(C1, i, <<P1a, P1a>>, <<2, 2>>, i + 1, "eager", TRUE)),
     S0("two-" \o C1[i], i, 0, 64, Two(C1, i, <<P1a, P1a>>, <<P1b, P1b>>, <<4>>, i, "eager")),
     S0("twoneg-" \o C1[i], i, 0, 64, Two(C1, i, <<P1b, P1b>>, <<P1a, P1a>>, <<4>>, i, "eager")) >>])
\* n dimensions
LitN(d, c, pts, n, shape, un) == [op |-> "lit", d |-> d, cls |-> c, shape |-> shape, n |-> n, comps |-> pts, u |-> un]
PN(n, m, k) == [i \in 1..m |-> [j \in 1..n |-> Rn(3 * i + 2 * j - k, ((i + j + k) % 3) + 1)]]
ScN == [n \in 1..5 |-> S0("nd" \o ToString(n), n, At(<<0, 3>>, n), 64,
   << LitN("x", "CartesianPosND", PN(n, 6, 4), n, <<6>>, U(n)), LitN("y", "CartesianPosND", PN(n, 6, 11), n, <<6>>, U(n + 1)) >>
   \o Unary("x", "eager") \o Scalars("x", n, "eager", FALSE) \o Pair("x", "y", At(Forms, n), "eager")
   \o << LitN("x", "CartesianPosND", PN(n, 6, 3), n, <<3, 2>>, U(n + 2)), LitN("y", "CartesianPosND", PN(n, 6, 2), n, <<3, 2>>, U(n)) >>
   \o Unary("x", "eager") \o Scalars("x", n, "eager", TRUE) \o Pair("x", "y", "op", "eager"))]

\* velocities and accelerations: negation in every class, the rest where the Cartesian classes define it
VC == <<"CartesianVel1D", "RadialVel", "CartesianVel2D", "PolarVel", "CartesianVel3D", "CylindricalVel", "SphericalVel",
        "LonLatSphericalVel", "LonCosLatSphericalVel", "MathSphericalVel", "ProlateSpheroidalVel">>
AC == <<"CartesianAcc1D", "RadialAcc", "CartesianAcc2D", "PolarAcc", "CartesianAcc3D", "CylindricalAcc", "SphericalAcc",
        "LonLatSphericalAcc", "MathSphericalAcc", "ProlateSpheroidalAcc">>
DD(c) == IF c \in {"CartesianVelND", "CartesianAccND"} THEN 3 ELSE DimOf(PosOfDif(c))
DRows(n, m, k) == [i \in 1..m |-> [j \in 1..n |-> Rn(5 * i - 3 * j + k, ((i + 2 * j + k) % 4) + 1)]]
LitD(d, c, rows, shape, un) == [op |-> "lit", d |-> d, cls |-> c, shape |-> shape, comps |-> rows, u |-> un]
CanAdd == {"CartesianVel1D", "CartesianVel2D", "CartesianVel3D", "CartesianAcc1D", "CartesianAcc2D", "CartesianAcc3D"}
CanSub == {"CartesianVel3D", "CartesianAcc1D", "CartesianAcc3D"}
CanScale == {"CartesianVel1D", "CartesianVel2D", "CartesianAcc1D", "CartesianAcc2D"}
Dsteps(c, i, m, shape, mode) ==
  << LitD("x", c, DRows(DD(c), m, i), shape, U(i)), LitD("y", c, DRows(DD(c), m, i + 7), shape, U(i + 1)),
     Ar("n", "neg", <<"x">>, "op", mode), Ar("nn", "neg", <<"n">>, "op", mode), Ar("o", "pos", <<"x">>, "op", mode) >>
  \o (IF c \in CanAdd THEN << Ar("s", "add", <<"x", "y">>, "op", mode), Ar("s", "add", <<"n", "y">>, "func", mode) >> ELSE <<>>)
  \o (IF c \in CanSub THEN << Ar("s", "sub", <<"x", "y">>, "op", mode), Ar("s", "sub", <<"y", "n">>, "func", mode) >> ELSE <<>>)
  \o (IF c \in CanScale THEN [k \in DOMAIN Facs |-> Sc("m", "mul", "x", Facs[k][1], "L", Facs[k][2], At(Forms, k), mode)] ELSE <<>>)
\* Euclidean norm of Cartesian rates
NRows(n) == IF n = 1 THEN <<<<Z(-3)>>, <<<<5, 2>>>>>> ELSE IF n = 2 THEN <<<<Z(3), Z(-4)>>, <<Z(-5), Z(12)>>>>
            ELSE <<<<Z(1), Z(-2), Z(2)>>, <<Z(2), Z(3), Z(-6)>>>>
NCls == <<"CartesianVel1D", "CartesianAcc1D", "CartesianVel2D", "CartesianAcc2D", "CartesianVel3D", "CartesianAcc3D">>
ScD == [i \in DOMAIN VC |-> S0("dif-" \o VC[i], i, 0, 64, Dsteps(VC[i], i, 4, <<4>>, "eager") \o Dsteps(VC[i], i + 1, 4, <<2, 2>>, "eager")
                                                   \o Dsteps(VC[i], i + 2, 1, <<>>, "jit"))]
    \o [i \in DOMAIN AC |-> S0("dif-" \o AC[i], i, 0, 64, Dsteps(AC[i], i, 4, <<4>>, "eager") \o Dsteps(AC[i], i + 1, 4, <<2, 2>>, "eager")
                                                   \o Dsteps(AC[i], i + 2, 1, <<>>, "jit"))]
    \o [i \in DOMAIN NCls |-> S0("difnorm-" \o NCls[i], i, 3, 64,
           << LitD("x", NCls[i], NRows(DD(NCls[i])), <<2>>, U(i)), Ar("q", "norm", <<"x">>, "op", "eager"), Ar("q", "abs", <<"x">>, "op", "eager") >>)]
    \o << S0("difnd", 1, 0, 64, << [op |-> "lit", d |-> "x", cls |-> "CartesianVelND", n |-> 3, shape |-> <<2>>, comps |-> NRows(3), u |-> U(2)],
             Ar("n", "neg", <<"x">>, "op", "eager"), Ar("q", "norm", <<"x">>, "op", "eager"),
             [op |-> "lit", d |-> "y", cls |-> "CartesianAccND", n |-> 3, shape |-> <<2>>, comps |-> NRows(3), u |-> U(4)],
             Ar("n", "neg", <<"y">>, "op", "eager"), Ar("q", "norm", <<"y">>, "op", "eager") >>) >>
Scenarios == ScStretch \o Sc3 \o Sc3b \o ScAx \o ScPro \o Sc2 \o Sc1 \o ScN \o ScD
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
