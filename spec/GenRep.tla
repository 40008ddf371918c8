------------------------------- MODULE GenRep -------------------------------
(* Same-dimension changes of representation: every ordered pair and every   *)
(* two-step path, over the exact lattice.                                   *)
EXTENDS Lat, IOUtils

C3 == <<"CartesianPos3D", "CylindricalPos", "SphericalPos", "LonLatSphericalPos",
        "MathSphericalPos", "ProlateSpheroidalPos">>
C2 == <<"CartesianPos2D", "PolarPos">>
C1 == <<"CartesianPos1D", "RadialPos">>

DeltaKw(t, delta, un) ==
  IF t = "ProlateSpheroidalPos"
  THEN [Delta |-> <<"len", <<delta>>, <<>>, un>>] ELSE <<>>
RepStep(d, a, t, delta, mode) ==
  [op |-> "rep", d |-> d, a |-> <<a>>, cls |-> t, kw |-> DeltaKw(t, delta, ""), mode |-> mode]

\* one literal, all targets, and from each of those all targets again
Tree(cs, src, pts, delta, un, mode) ==
  << LitOf("a", src, pts, delta, un) >>
  \o FlattenAll([i \in DOMAIN cs |->
       << RepStep("b" \o cs[i], "a", cs[i], delta, mode) >>
       \o [j \in DOMAIN cs |-> RepStep("c", "b" \o cs[i], cs[j], delta, mode)]])
\* one level only
Fan(cs, src, pts, delta, un, mode) ==
  << LitOf("a", src, pts, delta, un) >>
  \o [i \in DOMAIN cs |-> RepStep("b", "a", cs[i], delta, mode)]
FanScalar(cs, src, p, delta, un, mode) ==
  << LitScalar("a", src, p, delta, un) >>
  \o [i \in DOMAIN cs |-> RepStep("b", "a", cs[i], delta, mode)]

Sc(id, i, mag, prec, steps) ==
  [id |-> id, base |-> BaseFor(i), mag |-> mag, prec |-> prec, steps |-> steps]

Trees3 == [i \in DOMAIN C3 |->
   Sc("tree3-" \o C3[i], i, 0, 64,
      Tree(C3, C3[i], IF C3[i] = "ProlateSpheroidalPos" THEN ProAll(Z(2)) ELSE Pts3Full, Z(2), U(i), "eager"))]
\* prolate lattice points, other focal lengths
Pro3 == [i \in 1..3 |->
   LET src == <<C3[1], C3[2], C3[6]>>[i] IN
   Sc("pro3-" \o src, i + 1, 0, 64,
      Fan(C3, src, ProAll(<<1, 2>>), <<1, 2>>, U(i + 1), "eager"))]
Mag3 == [i \in 1..(Len(C3) - 1) |->
   Sc("mag3-" \o C3[i], i + 2, At(<<-9, 7, -5, 9>>, i), 64, Fan(C3, C3[i], Pts3Few, Z(3), U(i + 2), "eager"))]
Magp == [i \in 1..2 |->
   Sc("magp-" \o ToString(i), i, At(<<-9, 7>>, i), 64, Fan(C3, C3[6], ProReg(Z(1)), Z(1), U(i), "eager"))]
Jit3 == [i \in DOMAIN C3 |->
   Sc("jit3-" \o C3[i], i, 0, 64,
      Fan(C3, C3[i], IF i = 6 THEN ProReg(Z(1)) ELSE Pts3Few, Z(1), U(i + 3), "jit"))]
Vmap3 == [i \in DOMAIN C3 |->
   Sc("vmap3-" \o C3[i], i + 3, 0, 64,
      Fan(C3, C3[i], IF i = 6 THEN ProReg(Z(1)) ELSE Pts3Few, Z(1), U(i + 4), "vmap"))]
F32 == [i \in DOMAIN C3 |->
   Sc("f32-" \o C3[i], 1, 0, 32,
      Fan(C3, C3[i], IF i = 6 THEN ProReg(Z(1)) ELSE Pts3Few, Z(1), U(1), "eager"))]
ScalPts == <<Pts3Few[2], Pts3Few[12], Pts3Few[21]>>
Scal3 == FlattenAll([i \in DOMAIN C3 |->
   [p \in 1..(IF i = 6 THEN 1 ELSE 2) |->
      Sc("scal3-" \o C3[i] \o ToString(p), i, 0, 64,
         FanScalar(C3, C3[i], IF i = 6 THEN ProReg(Z(1))[6] ELSE At(ScalPts, i + p), Z(1), U(i + p), "eager"))]])
\* the origin
Orig == [i \in 1..5 |->
   Sc("orig-" \o C3[i], i, 0, 64, Tree(SubSeq(C3, 1, 5), C3[i], <<<<R0, R0, R0>>>>, Z(1), U(i), "eager"))]
Low == [i \in DOMAIN C2 |-> Sc("tree2-" \o C2[i], i, 0, 64, Tree(C2, C2[i], Pts2 \o <<<<R0, R0>>>>, R1, U(i + 1), "eager"))]
   \o [i \in DOMAIN C1 |-> Sc("tree1-" \o C1[i], i, 0, 64, Tree(C1, C1[i], Pts1, R1, U(i + 1), "eager"))]
   \o [i \in DOMAIN C2 |-> Sc("jit2-" \o C2[i], i, 7, 64, Fan(C2, C2[i], Pts2, R1, U(i + 2), "jit"))]
   \o [i \in DOMAIN C1 |-> Sc("jit1-" \o C1[i], i, -7, 64, Fan(C1, C1[i], Pts1, R1, U(i + 2), "jit"))]
   \o << Sc("neg1", 1, 0, 64, Fan(C1, C1[1], Pts1Neg, R1, U(1), "eager")) >>
\* a change of focal length
ReDelta ==
  << Sc("redelta", 1, 0, 64,
       << LitOf("a", C3[6], ProAll(Z(2)), Z(2), U(1)),
          RepStep("b", "a", C3[6], <<1, 2>>, "eager"),
          RepStep("c", "b", C3[1], R1, "eager"),
          RepStep("c", "b", C3[6], Z(2), "eager"),
          [op |-> "rep", d |-> "e", a |-> <<"a">>, cls |-> C3[6], kw |-> <<>>, mode |-> "eager"] >>) >>
\* same, Delta given in another unit than mu and nu
ReDeltaU ==
  << Sc("redeltau", 1, 0, 64,
       << LitOf("a", C3[6], ProReg(Z(2)), Z(2), [len |-> <<"km">>, ang |-> <<"deg">>, delta |-> "m"]),
          [op |-> "rep", d |-> "b", a |-> <<"a">>, cls |-> C3[6], mode |-> "eager",
           kw |-> [Delta |-> <<"len", <<Z(1)>>, <<>>, "cm">>]],
          RepStep("c", "b", C3[1], R1, "eager"),
          RepStep("c", "b", C3[6], Z(2), "eager") >>) >>
\* a prolate target without its focal length is refused
NoDelta ==
  << Sc("nodelta", 1, 0, 64,
       << LitOf("a", C3[1], Pts3Few, Z(2), U(1)),
          [op |-> "rep", d |-> "e", a |-> <<"a">>, cls |-> C3[6], kw |-> <<>>, mode |-> "eager"] >>) >>

Scenarios == Trees3 \o Pro3 \o Mag3 \o Magp \o Jit3 \o Vmap3 \o F32 \o Scal3 \o Orig \o Low \o ReDelta \o ReDeltaU \o NoDelta
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
