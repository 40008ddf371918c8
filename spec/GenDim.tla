------------------------------- MODULE GenDim -------------------------------
(* Dimension changes: every supported lowering and raising, with every      *)
(* subset of the optional coordinates (scalar and batched, in other units), *)
(* lowering again afterwards, and equal-dimension conversions, which must   *)
(* not warn.                                                                *)
EXTENDS Lat, IOUtils
Thorough == IOEnv.TIER = "thorough"
SRC3 == <<"CartesianPos3D", "CylindricalPos", "SphericalPos", "MathSphericalPos", "ProlateSpheroidalPos", "LonLatSphericalPos">>
L1 == <<"CartesianPos1D", "RadialPos">>
L2 == <<"CartesianPos2D", "PolarPos">>
DKw == [Delta |-> <<"len", <<Z(2)>>, <<>>, "">>]
PtsFor(s) == IF s = "ProlateSpheroidalPos" THEN ProAll(Z(2)) ELSE Pts3Full
Rep(d, a, t, kw, mode) == [op |-> "rep", d |-> d, a |-> <<a>>, cls |-> t, kw |-> kw, mode |-> mode]
S0(id, i, mag, prec, steps) == [id |-> id, base |-> BaseFor(i), mag |-> mag, prec |-> prec, steps |-> steps]
\* representable in the lattice: the target's components must be nameable

LowTargets(s) == IF s = "LonLatSphericalPos" THEN <<>> ELSE IF DimOf(s) = 2 THEN L1 ELSE L1 \o L2
Lower3(s, i, pts, shape, mode) ==
  << [LitOf("p", s, pts, Z(2), U(i)) EXCEPT !.shape = shape] >>
  \o [k \in DOMAIN LowTargets(s) |-> Rep("b" \o ToString(k), "p", LowTargets(s)[k], <<>>, mode)]
  \* two-dimensional results lowered once more
  \o (IF DimOf(s) = 3 THEN << Rep("c", "b3", "CartesianPos1D", <<>>, mode), Rep("c", "b4", "RadialPos", <<>>, mode),
                              Rep("c", "b3", "RadialPos", <<>>, mode), Rep("c", "b4", "CartesianPos1D", <<>>, mode) >> ELSE <<>>)
ScLow3 == FlattenAll([i \in 1..5 |-> LET s == SRC3[i]
                                         P == PtsFor(s)
                                         h == Len(P) \div 2 IN
  << S0("low-" \o s, i, 0, 64, Lower3(s, i, P, <<Len(P)>>, "eager")),
     S0("lowm-" \o s, i + 1, At(<<7, -9, 3>>, i), 64, Lower3(s, i + 1, P, <<Len(P)>>, "eager")),
     S0("lowshape-" \o s, i + 2, 0, 64, Lower3(s, i + 2, SubSeq(P, 1, 12), <<3, 4>>, "eager")),
     S0("lowscal-" \o s, i + 3, 0, 64, Lower3(s, i + 3, <<P[h]>>, <<>>, "eager")),
     S0("lowjit-" \o s, i + 3, 0, 64, Lower3(s, i + 3, Clip(P, 3, 9), <<7>>, "jit")),
     S0("lowvmap-" \o s, i, 0, 64, Lower3(s, i, Clip(P, 5, 12), <<8>>, "vmap")),
     S0("low32-" \o s, i, 0, 32, Lower3(s, i + 10, IF s = "ProlateSpheroidalPos" THEN <<ProAll(Z(2))[1], ProAll(Z(2))[4]>> ELSE Clip(P, 1, 20),
            IF s = "ProlateSpheroidalPos" THEN <<2>> ELSE <<20>>, "eager")) >>])
ScLow2 == FlattenAll([i \in 1..2 |-> LET s == L2[i] IN
  << S0("low-" \o s, i, 0, 64, Lower3(s, i, Pts2, <<12>>, "eager")),
     S0("lowshape-" \o s, i + 1, 7, 64, Lower3(s, i + 2, Pts2, <<2, 6>>, "eager")),
     S0("lowscal-" \o s, i + 2, 0, 64, Lower3(s, i + 3, <<Pts2[7]>>, <<>>, "eager")),
     S0("lowjit-" \o s, i + 3, 0, 64, Lower3(s, i + 3, Pts2, <<12>>, "jit")) >>])

\* ---- raising ----
Opts(s, t) ==
  CASE t = "CartesianPos2D" -> <<"y">> [] t = "PolarPos" -> <<"phi">>
    [] t = "CartesianPos3D" -> IF DimOf(s) = 1 THEN <<"y", "z">> ELSE <<"z">>
    [] t = "CylindricalPos" -> IF DimOf(s) = 1 THEN <<"phi", "z">> ELSE <<"z">>
    [] t = "SphericalPos" -> IF DimOf(s) = 1 THEN <<"theta", "phi">> ELSE IF s = "PolarPos" THEN <<"theta">> ELSE <<"z">>
    [] t = "MathSphericalPos" -> IF DimOf(s) = 1 THEN <<"theta", "phi">> ELSE IF s = "PolarPos" THEN <<"phi">> ELSE <<"z">>
\* exact values, chosen so that every component stays rational
\* (polar angles anywhere: the spherical constructors bring them into range)
PolAny == <<A(3,5,4,5), Ang90, A(-4,5,3,5), Ang180, A(-4,5,-3,5), <<<<3,5>>, <<-4,5>>, -1>>, <<<<3,5>>, <<4,5>>, 1>>>>
KwVal(nm, t, n, i) ==
  CASE nm = "y" -> [j \in 1..n |-> At(<<Z(4), <<-5, 3>>, R0>>, i + j)]
    [] nm = "z" -> [j \in 1..n |-> At(<<Z(-3), <<7, 2>>, R0>>, i + j)]
    [] nm = "theta" -> [j \in 1..n |-> IF t = "SphericalPos" THEN At(PolAny, i + j)
                                       ELSE At(<<A(-3,5,-4,5), Ang270, A(4,5,3,5)>>, i + j)]
    [] nm = "phi" -> [j \in 1..n |-> IF t = "MathSphericalPos" THEN At(PolAny, i + j)
                                     ELSE At(<<A(-3,5,-4,5), Ang270, A(4,5,3,5)>>, i + j)]
KindOf(nm) == IF nm \in {"y", "z"} THEN "len" ELSE "ang"
UnitOf(nm, i) == IF KindOf(nm) = "len" THEN At(<<"km", "pc", "">>, i) ELSE At(<<"deg", "rad", "">>, i)
KwOf(names, t, batch, n, shape, i) ==
  [nm \in names |-> <<KindOf(nm), KwVal(nm, t, IF batch THEN n ELSE 1, i), IF batch THEN shape ELSE <<>>, UnitOf(nm, i)>>]
\* spherical targets need a rational radius: lift 2-D points to Pythagorean heights only with z = 0
RaiseKws(s, t) ==
  IF s = "CartesianPos2D" /\ t \in {"SphericalPos", "MathSphericalPos"} THEN <<{}, {"z"}>>
  ELSE IF Len(Opts(s, t)) = 1 THEN <<{}, {Opts(s, t)[1]}>>
  ELSE <<{}, {Opts(s, t)[1]}, {Opts(s, t)[2]}, {Opts(s, t)[1], Opts(s, t)[2]}>>
RaiseTargets(s) == IF DimOf(s) = 1 THEN L2 \o <<"CartesianPos3D", "CylindricalPos", "SphericalPos", "MathSphericalPos">>
                   ELSE <<"CartesianPos3D", "CylindricalPos", "SphericalPos", "MathSphericalPos">>
Back(s, t) == IF DimOf(s) = 2 THEN << Rep("e", "b", s, <<>>, "eager") >>
              ELSE << Rep("e", "b", s, <<>>, "eager") >>
RaiseSteps(s, pts, shape, un, mode, batch, i) ==
  << [LitOf("p", s, pts, R1, un) EXCEPT !.shape = shape] >>
  \o FlattenAll([k \in DOMAIN RaiseTargets(s) |-> LET t == RaiseTargets(s)[k] IN
       FlattenAll([j \in DOMAIN RaiseKws(s, t) |->
         << Rep("b", "p", t, KwOf(RaiseKws(s, t)[j], t, batch, Len(pts), shape, i + j), mode) >>
         \o (IF mode = "eager" THEN Back(s, t) ELSE <<>>)])])
Pts1Pos == <<<<Z(3)>>, <<<<5, 2>>>>, <<<<1, 8>>>>, <<Z(7)>>, <<Z(5)>>, <<R0>>>>
PtsSrc(s) == IF DimOf(s) = 1 THEN Pts1Pos ELSE Pts2
ScRaise == FlattenAll([i \in 1..4 |-> LET s == (L1 \o L2)[i]
                                          P == PtsSrc(s)
                                          n == Len(P) IN
  << S0("up-" \o s, i, 0, 64, RaiseSteps(s, P, <<n>>, U(i), "eager", FALSE, i)),
     S0("upb-" \o s, i + 1, 0, 64, RaiseSteps(s, P, <<n>>, U(i + 1), "eager", TRUE, i)),
     S0("upm-" \o s, i + 2, At(<<3, -4, 7, -9>>, i), 64, RaiseSteps(s, P, <<n>>, U(i + 2), "eager", TRUE, i)),
     S0("upshape-" \o s, i + 2, 0, 64, RaiseSteps(s, P, <<2, n \div 2>>, U(i + 2), "eager", TRUE, i + 1)),
     S0("upscal-" \o s, i + 3, 0, 64, RaiseSteps(s, <<P[2]>>, <<>>, U(i + 3), "eager", FALSE, i + 2)),
     S0("upjit-" \o s, i + 3, 0, 64, RaiseSteps(s, Clip(P, 2, 5), <<4>>, U(i + 3), "jit", TRUE, i + 1)) >>])
\* a negative abscissa has no polar or cylindrical form with that radius; the spherical ones normalise it
ScNeg == << S0("neg", 1, 0, 64,
  << LitOf("p", "CartesianPos1D", Pts1Neg, R1, U(1)) >>
  \o [k \in 1..6 |-> Rep("b", "p", RaiseTargets("CartesianPos1D")[k], <<>>, "eager")]
  \o << Rep("b", "p", "SphericalPos", KwOf({"theta", "phi"}, "SphericalPos", FALSE, 1, <<>>, 1), "eager"),
        Rep("b", "p", "MathSphericalPos", KwOf({"theta", "phi"}, "MathSphericalPos", FALSE, 1, <<>>, 2), "eager"),
        Rep("r", "p", "RadialPos", <<>>, "eager") >>) >>
\* same number of dimensions: never a warning
ScSame == [i \in 1..6 |-> S0("same-" \o SRC3[i], i, 0, 64,
  << LitOf("p", SRC3[i], IF SRC3[i] = "ProlateSpheroidalPos" THEN ProReg(Z(2)) ELSE Clip(Pts3Full, 20, 30), Z(2), U(i)) >>
  \o [k \in 1..6 |-> Rep("b", "p", SRC3[k], IF 5 \in {i, k} THEN DKw ELSE <<>>, "eager")])]
Scenarios == ScLow3 \o ScLow2 \o ScRaise \o ScNeg \o ScSame
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
