------------------------------- MODULE GenAcc -------------------------------
(* Accelerations: every ordered pair of acceleration classes, with position *)
(* and velocity supplied in every representation or as bare quantities, and *)
(* chains back to the start.                                                *)
EXTENDS Lat, IOUtils

C3 == <<"CartesianPos3D", "CylindricalPos", "SphericalPos", "LonLatSphericalPos", "MathSphericalPos", "ProlateSpheroidalPos">>
V3 == <<"CartesianVel3D", "CylindricalVel", "SphericalVel", "LonLatSphericalVel", "MathSphericalVel", "ProlateSpheroidalVel", "LonCosLatSphericalVel">>
A3 == <<"CartesianAcc3D", "CylindricalAcc", "SphericalAcc", "LonLatSphericalAcc", "MathSphericalAcc", "ProlateSpheroidalAcc">>
Vs == << <<Z(1), Z(-2), Z(2)>>, <<Z(2), Z(3), Z(-6)>>, <<Z(-4), Z(4), Z(7)>>, <<Z(6), Z(-2), Z(3)>>, <<Z(-2), Z(1), Z(2)>> >>
Thorough == IOEnv.TIER = "thorough"
SphP == << Decode("SphericalPos", <<Z(5), A(4,5,3,5), AngZero>>, R1),
           Decode("SphericalPos", <<Z(5), A(-3,5,4,5), A(3,5,4,5)>>, R1),
           Decode("SphericalPos", <<Z(2), A(3,5,4,5), Ang90>>, R1),
           Decode("SphericalPos", <<Z(10), A(-4,5,3,5), A(-4,5,-3,5)>>, R1),
           Decode("SphericalPos", <<<<5, 2>>, Ang90, A(-3,5,4,5)>>, R1),
           Decode("SphericalPos", <<Z(1), A(4,5,3,5), A(4,5,-3,5)>>, R1) >>
ProP == << ProPt(Z(2), Hyp[1], CosV[1], AngZero), ProPt(Z(2), Hyp[1], CosV[4], A(3,5,4,5)),
           ProPt(Z(2), Hyp[2], CosV[2], Ang90), ProPt(Z(2), Hyp[2], CosV[5], A(-4,5,-3,5)),
           ProPt(Z(2), Hyp[1], CosV[2], Ang180), ProPt(Z(2), Hyp[3], CosV[1], A(4,5,-3,5)) >>
DKw(un) == [Delta |-> <<"len", <<Z(2)>>, <<>>, un>>]
Lit(d, c, pts, off, shape, un) ==
  [op |-> "lit", d |-> d, cls |-> c, shape |-> shape, delta |-> Z(2), u |-> un,
   comps |-> [i \in DOMAIN pts |-> FromCart(c, At(Vs, i + off), pts[i], Z(2))]]
LitP(d, pc, pts, shape, un) == [LitOf(d, pc, pts, Z(2), un) EXCEPT !.shape = shape]
LitQ(d, rows, kind, shape, unit) ==
  [op |-> "litq", d |-> d, kind |-> kind, u |-> unit, shape |-> shape \o <<Len(rows[1])>>, vals |-> FlattenAll(rows)]
Rep(d, a, t) == [op |-> "rep", d |-> d, a |-> <<a>>, cls |-> t, mode |-> "eager",
                 kw |-> IF t = "ProlateSpheroidalPos" THEN DKw("") ELSE <<>>]
Prol(c) == c \in {"ProlateSpheroidalAcc", "ProlateSpheroidalVel"}
RepA(d, a, s, v, p, t, mode) ==
  [op |-> "repd", d |-> d, a |-> <<a, v, p>>, cls |-> t, mode |-> mode,
   kw |-> IF Prol(s) \/ Prol(t) \/ v = "v6" THEN DKw("") ELSE <<>>]
PosForms == <<"pCartesianPos3D", "pCylindricalPos", "pSphericalPos", "pLonLatSphericalPos", "pMathSphericalPos", "pq", "pProlateSpheroidalPos">>
\* all positions, velocities in the classes vs, and one acceleration
Setup(ai, pts, vs, shape, un) ==
  << LitP("p", "CartesianPos3D", pts, shape, un), LitQ("pq", pts, "len", shape, un.len[1]),
     LitQ("vq", [i \in DOMAIN pts |-> At(Vs, i + 2)], "len/t", shape, "km/s") >>
  \o [i \in DOMAIN C3 |-> Rep("p" \o C3[i], "p", C3[i])]
  \o [i \in DOMAIN vs |-> Lit("v" \o ToString(vs[i]), V3[vs[i]], pts, 2, shape, un)]
  \o << Lit("a", A3[ai], pts, 0, shape, un) >>
VF(vs, n) == At([i \in DOMAIN vs |-> "v" \o ToString(vs[i])] \o <<"vq">>, n)
Pairs(ai, pts, vs, shape, un, mode, nf, tgts) ==
  Setup(ai, pts, vs, shape, un)
  \o FlattenAll([k \in DOMAIN tgts |->
       FlattenAll([f \in 1..nf |->
         LET t == A3[tgts[k]]
             t2 == A3[((tgts[k] + ai + f) % 6) + 1]
         IN << RepA("b", "a", A3[ai], VF(vs, k + ai + 2 * f), At(PosForms, 3 * k + 2 * f + ai), t, mode) >>
            \o (IF f = 1 THEN << RepA("c", "b", t, VF(vs, k + 1), At(PosForms, k + 2 * ai), t2, mode),
                                 RepA("e", "c", t2, VF(vs, k + 3), At(PosForms, 2 * k + ai), A3[ai], mode) >> ELSE <<>>)])])
Sc(id, i, mag, prec, steps) == [id |-> id, base |-> BaseFor(i), mag |-> mag, prec |-> prec, steps |-> steps]
NF == IF Thorough THEN 6 ELSE 1
VS == <<1, 2, 3, 4, 5, 7>>
VP == <<1, 2, 6>>
Sph == FlattenAll([ai \in 1..5 |->
         << Sc("acc-" \o A3[ai], ai, 0, 64, Pairs(ai, SphP, VS, <<6>>, U(ai), "eager", NF, <<1, 2, 3, 4, 5, 6>>)),
            Sc("accshape-" \o A3[ai], ai + 1, At(<<7, -9, 0>>, ai), 64, Pairs(ai, SphP, VS, <<2, 3>>, U(ai + 2), "eager", 1, <<1, 3>>)),
            Sc("accscal-" \o A3[ai], ai + 2, 0, 64, Pairs(ai, <<SphP[2]>>, VS, <<>>, U(ai + 3), "eager", 1, <<2, 4>>)),
            Sc("accjit-" \o A3[ai], ai + 3, 0, 64, Pairs(ai, Clip(SphP, 1, 3), VS, <<3>>, U(ai + 4), "jit", 1, <<1>>)) >>])
Pro == FlattenAll([k \in 1..3 |-> LET ai == <<1, 2, 6>>[k] IN
         << Sc("accpro-" \o A3[ai], k, 0, 64, Pairs(ai, ProP, VP, <<6>>, U(k), "eager", NF, <<1, 2, 6>>)),
            Sc("accproscal-" \o A3[ai], k + 1, 0, 64, Pairs(ai, <<ProP[2]>>, VP, <<>>, U(k + 1), "eager", 1, <<1, 4, 6>>)) >>])
P2s == [i \in 1..6 |-> Decode("PolarPos", <<At(<<Z(5), Z(2), <<5, 2>>>>, i), At(AzFew, i)>>, R1)]
V2s == << <<Z(3), Z(-4)>>, <<Z(-5), Z(12)>>, <<Z(8), Z(15)>> >>
Lit2(d, c, pts, off, shape, un) ==
  [op |-> "lit", d |-> d, cls |-> c, shape |-> shape, u |-> un, delta |-> R1,
   comps |-> [i \in DOMAIN pts |-> FromCart(c, At(V2s, i + off), pts[i], R1)]]
Two(c, pts, shape, un, mode) ==
  << LitP("p", "CartesianPos2D", pts, shape, un), LitQ("pq", pts, "len", shape, un.len[1]), Rep("pp", "p", "PolarPos"),
     LitQ("vq", [i \in DOMAIN pts |-> At(V2s, i)], "len/t", shape, "km/s"),
     Lit2("v", "CartesianVel2D", pts, 1, shape, un), Lit2("vp", "PolarVel", pts, 1, shape, un), Lit2("a", c, pts, 0, shape, un) >>
  \o FlattenAll([i \in 1..2 |-> LET t == <<"CartesianAcc2D", "PolarAcc">>[i] IN
       FlattenAll([f \in 1..3 |->
          << RepA("b", "a", c, <<"v", "vp", "vq">>[f], At(<<"pp", "pq", "p">>, f + i), t, mode),
             RepA("e", "b", t, "v", At(<<"p", "pp", "pq">>, f + 1), c, mode) >>])])
One(c, mode, shape, un) ==
  LET n == SizeOf(shape)
      pts == [i \in 1..n |-> <<Z(i + 1)>>]
  IN << LitP("p", "CartesianPos1D", pts, shape, un), LitQ("pq", pts, "len", shape, un.len[1]), Rep("pr", "p", "RadialPos"),
        [op |-> "lit", d |-> "v", cls |-> "CartesianVel1D", shape |-> shape, u |-> un, comps |-> [i \in 1..n |-> <<Z(i)>>]],
        [op |-> "lit", d |-> "a", cls |-> c, shape |-> shape, u |-> un, comps |-> [i \in 1..n |-> <<Z(7 - 3 * i)>>]] >>
     \o FlattenAll([i \in 1..2 |-> LET t == <<"CartesianAcc1D", "RadialAcc">>[i] IN
          FlattenAll([f \in 1..3 |-> << RepA("b", "a", c, "v", <<"p", "pr", "pq">>[f], t, mode),
                                        RepA("e", "b", t, "v", "p", c, mode) >>])])
Low == FlattenAll([i \in 1..2 |-> LET c == <<"CartesianAcc2D", "PolarAcc">>[i] IN
         << Sc("acc2-" \o c, i, 0, 64, Two(c, P2s, <<6>>, U(i), "eager")),
            Sc("acc2s-" \o c, i + 1, 0, 64, Two(c, <<P2s[2]>>, <<>>, U(i + 1), "jit")) >>])
   \o FlattenAll([i \in 1..2 |-> LET c == <<"CartesianAcc1D", "RadialAcc">>[i] IN
         << Sc("acc1-" \o c, i, 0, 64, One(c, "eager", <<4>>, U(i))),
            Sc("acc1s-" \o c, i, 0, 64, One(c, "eager", <<>>, U(i + 2))) >>])
Scenarios == Sph \o Pro \o Low
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
