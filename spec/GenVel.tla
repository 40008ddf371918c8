------------------------------- MODULE GenVel -------------------------------
(* Velocities: every ordered pair of velocity classes, with the position    *)
(* supplied in every representation or as a Cartesian length quantity, and  *)
(* chains through intermediates back to the start.  Components are exact    *)
(* images of Cartesian velocities with rational speed.                      *)
EXTENDS Lat, IOUtils

C3 == <<"CartesianPos3D", "CylindricalPos", "SphericalPos", "LonLatSphericalPos", "MathSphericalPos", "ProlateSpheroidalPos">>
V3 == <<"CartesianVel3D", "CylindricalVel", "SphericalVel", "LonLatSphericalVel", "LonCosLatSphericalVel",
        "MathSphericalVel", "ProlateSpheroidalVel">>
Vs == << <<Z(1), Z(-2), Z(2)>>, <<Z(2), Z(3), Z(-6)>>, <<Z(-4), Z(4), Z(7)>>, <<Z(6), Z(-2), Z(3)>>, <<Z(-2), Z(1), Z(2)>> >>
V(i) == At(Vs, i)
Thorough == IOEnv.TIER = "thorough"

\* regular points of the spherical family, and of the prolate family
SphP(k) == << Decode("SphericalPos", <<Z(5), A(4,5,3,5), AngZero>>, R1),
              Decode("SphericalPos", <<Z(5), A(-3,5,4,5), A(3,5,4,5)>>, R1),
              Decode("SphericalPos", <<Z(2), A(3,5,4,5), Ang90>>, R1),
              Decode("SphericalPos", <<Z(10), A(-4,5,3,5), A(-4,5,-3,5)>>, R1),
              Decode("SphericalPos", <<<<5, 2>>, Ang90, A(-3,5,4,5)>>, R1),
              Decode("SphericalPos", <<Z(1), A(4,5,3,5), A(4,5,-3,5)>>, R1) >>
ProP == << ProPt(Z(2), Hyp[1], CosV[1], AngZero), ProPt(Z(2), Hyp[1], CosV[4], A(3,5,4,5)),
           ProPt(Z(2), Hyp[2], CosV[2], Ang90), ProPt(Z(2), Hyp[2], CosV[5], A(-4,5,-3,5)),
           ProPt(Z(2), Hyp[1], CosV[2], Ang180), ProPt(Z(2), Hyp[3], CosV[1], A(4,5,-3,5)) >>
DKw(un) == [Delta |-> <<"len", <<Z(2)>>, <<>>, un>>]
KwFor(x, t) == IF x = 7 \/ t = 7 THEN DKw("") ELSE <<>>
NeedD(a, b) == a \in {"ProlateSpheroidalPos", "ProlateSpheroidalVel"} \/ b \in {"ProlateSpheroidalPos", "ProlateSpheroidalVel"}

LitV(d, vc, pts, off, shape, un) ==
  [op |-> "lit", d |-> d, cls |-> vc, shape |-> shape, delta |-> Z(2), u |-> un,
   comps |-> [i \in DOMAIN pts |-> FromCart(vc, V(i + off), pts[i], Z(2))]]
LitP(d, pc, pts, shape, un) == [LitOf(d, pc, pts, Z(2), un) EXCEPT !.shape = shape]
LitQ(d, pts, shape, unit) ==
  [op |-> "litq", d |-> d, kind |-> "len", u |-> unit, shape |-> shape \o <<Len(pts[1])>>, vals |-> FlattenAll(pts)]
Rep(d, a, t) == [op |-> "rep", d |-> d, a |-> <<a>>, cls |-> t, mode |-> "eager",
                 kw |-> IF t = "ProlateSpheroidalPos" THEN DKw("") ELSE <<>>]
RepD(d, v, s, p, t, mode) ==
  [op |-> "repd", d |-> d, a |-> <<v, p>>, cls |-> t, mode |-> mode, kw |-> IF NeedD(s, t) THEN DKw("") ELSE <<>>]
Norm(v, s, p) == [op |-> "normv", d |-> "n", a |-> <<v, p>>]

PosForms == <<"pCartesianPos3D", "pCylindricalPos", "pSphericalPos", "pLonLatSphericalPos", "pMathSphericalPos", "pq", "pProlateSpheroidalPos">>
AllPos(pts, shape, un) ==
  << LitP("p", "CartesianPos3D", pts, shape, un), LitQ("pq", pts, shape, un.len[1]) >>
  \o [i \in DOMAIN C3 |-> Rep("p" \o C3[i], "p", C3[i])]
\* pairs from one source class
Pairs(si, pts, off, shape, un, mode, nforms, tgts) ==
  AllPos(pts, shape, un) \o << LitV("v", V3[si], pts, off, shape, un) >>
  \o FlattenAll([k \in DOMAIN tgts |->
       FlattenAll([f \in 1..nforms |->
         LET t == V3[tgts[k]]
             pf == At(PosForms, 3 * k + f * 2 + si)
             \* the chain: on to another class with the position in another form, then back
             t2 == V3[((tgts[k] + si + f) % 7) + 1]
             u2 == At(PosForms, k + f + 2 * si)
         IN << RepD("b", "v", V3[si], pf, t, mode) >>
            \o (IF f = 1 THEN << RepD("c", "b", t, u2, t2, mode), RepD("e", "c", t2, At(PosForms, k + si), V3[si], mode) >> ELSE <<>>)])])
   \o (IF V3[si] = "ProlateSpheroidalVel" THEN <<>> ELSE << Norm("v", V3[si], At(PosForms, si)) >>)

S0(id, i, mag, prec, steps) == [id |-> id, base |-> BaseFor(i), mag |-> mag, prec |-> prec, steps |-> steps]
All7 == <<1, 2, 3, 4, 5, 6, 7>>
NF == IF Thorough THEN 7 ELSE 2
Sph == FlattenAll([si \in 1..6 |->
         << S0("vel-" \o V3[si], si, 0, 64, Pairs(si, SphP(1), si, <<6>>, U(si), "eager", NF, All7)),
            S0("velm-" \o V3[si], si + 2, At(<<-9, 7, 4>>, si), 64,
               Pairs(si, SubSeq(SphP(1), 2, 3), si, <<2>>, U(si + 2), "eager", 1, <<1, 5>>)),
            S0("velshape-" \o V3[si], si + 1, 0, 64,
               Pairs(si, SphP(1), si, <<2, 3>>, U(si + 1), "eager", 1, <<1, 3, 5>>)),
            S0("velscal-" \o V3[si], si + 3, 0, 64,
               Pairs(si, <<SphP(1)[2]>>, si, <<>>, U(si + 3), "eager", 1, <<1, 2, 4>>)),
            S0("veljit-" \o V3[si], si + 3, 0, 64,
               Pairs(si, SubSeq(SphP(1), 1, 3), si, <<3>>, U(si + 3), "jit", 1, <<2, 5>>)),
            S0("velvmap-" \o V3[si], si + 4, 0, 64,
               Pairs(si, SubSeq(SphP(1), 1, 4), si, <<4>>, U(si + 4), "vmap", 1, <<1, 4>>)) >>])
Pro == FlattenAll([k \in 1..3 |-> LET si == <<1, 2, 7>>[k] IN
         << S0("velpro-" \o V3[si], k, 0, 64, Pairs(si, ProP, si, <<6>>, U(k), "eager", NF, All7)),
            S0("velproscal-" \o V3[si], k + 1, 0, 64, Pairs(si, <<ProP[2]>>, si, <<>>, U(k + 1), "eager", 1, <<1, 3, 7>>)),
            S0("velproshape-" \o V3[si], k + 1, 0, 64, Pairs(si, ProP, si, <<3, 2>>, U(k + 3), "eager", 1, <<2, 4, 7>>)) >>])

\* two and one dimensions
P2s == [i \in 1..6 |-> Decode("PolarPos", <<At(<<Z(5), Z(2), <<5, 2>>>>, i), At(AzFew, i)>>, R1)]
V2s == << <<Z(3), Z(-4)>>, <<Z(-5), Z(12)>>, <<Z(8), Z(15)>> >>
LitV2(d, vc, pts, shape, un) ==
  [op |-> "lit", d |-> d, cls |-> vc, shape |-> shape, u |-> un, delta |-> R1,
   comps |-> [i \in DOMAIN pts |-> FromCart(vc, At(V2s, i), pts[i], R1)]]
Two(c, pts, shape, un, mode) ==
  << LitP("p", "CartesianPos2D", pts, shape, un), LitQ("pq", pts, shape, un.len[1]),
     Rep("pp", "p", "PolarPos"), LitV2("v", c, pts, shape, un) >>
  \o FlattenAll([i \in 1..2 |-> LET t == <<"CartesianVel2D", "PolarVel">>[i] IN
       FlattenAll([f \in 1..3 |-> LET pf == <<"p", "pp", "pq">>[f] IN
          << RepD("b", "v", c, pf, t, mode), RepD("e", "b", t, At(<<"p", "pp", "pq">>, f + 1), c, mode) >>])])
  \o << Norm("v", c, "p"), Norm("v", c, "pp") >>
Low == FlattenAll([i \in 1..2 |-> LET c == <<"CartesianVel2D", "PolarVel">>[i] IN
         << S0("vel2-" \o c, i, 0, 64, Two(c, P2s, <<6>>, U(i), "eager")),
            S0("vel2s-" \o c, i + 1, 7, 64, Two(c, <<P2s[2]>>, <<>>, U(i + 1), "eager")),
            S0("vel2j-" \o c, i + 2, -7, 64, Two(c, P2s, <<6>>, U(i + 2), "jit")) >>])
One(c, mode, shape, un) ==
  LET n == SizeOf(shape)
      pts == [i \in 1..n |-> <<Z(i + 1)>>]
  IN << LitP("p", "CartesianPos1D", pts, shape, un), LitQ("pq", pts, shape, un.len[1]), Rep("pr", "p", "RadialPos"),
        [op |-> "lit", d |-> "v", cls |-> c, shape |-> shape, u |-> un, comps |-> [i \in 1..n |-> <<Z(7 - 3 * i)>>]] >>
     \o FlattenAll([i \in 1..2 |-> LET t == <<"CartesianVel1D", "RadialVel">>[i] IN
          FlattenAll([f \in 1..3 |-> << RepD("b", "v", c, <<"p", "pr", "pq">>[f], t, mode),
                                        RepD("e", "b", t, "p", c, mode) >>])])
     \o << Norm("v", c, "p") >>
Low1 == FlattenAll([i \in 1..2 |-> LET c == <<"CartesianVel1D", "RadialVel">>[i] IN
         << S0("vel1-" \o c, i, 0, 64, One(c, "eager", <<4>>, U(i))),
            S0("vel1s-" \o c, i, 0, 64, One(c, "eager", <<>>, U(i + 2))),
            S0("vel1j-" \o c, i, 0, 64, One(c, "jit", <<2, 2>>, U(i + 3))) >>])
Scenarios == Sph \o Pro \o Low \o Low1
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
