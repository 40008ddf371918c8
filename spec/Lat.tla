-------------------------------- MODULE Lat --------------------------------
(* The exact lattice the generators draw from.                              *)
EXTENDS Coordinax

A(cn, cd, sn, sd) == <<Rn(cn, cd), Rn(sn, sd), 0>>
Axes4 == <<AngZero, Ang90, Ang180, Ang270>>
Pyth8 == << A(3,5,4,5), A(4,5,3,5), A(-3,5,4,5), A(-4,5,3,5),
            A(-3,5,-4,5), A(-4,5,-3,5), A(3,5,-4,5), A(4,5,-3,5) >>
Az12 == Axes4 \o Pyth8
AzFew == <<AngZero, A(3,5,4,5), Ang90, A(-4,5,3,5), Ang180, A(-3,5,-4,5), Ang270, A(24,25,-7,25)>>
Pol8 == <<AngZero, A(24,25,7,25), A(4,5,3,5), A(3,5,4,5), Ang90, A(-3,5,4,5), A(-4,5,3,5), Ang180>>
PolIn == <<A(4,5,3,5), A(3,5,4,5), Ang90, A(-3,5,4,5)>>        \* off the axis
Radii == <<Z(1), Z(5), <<5, 2>>, Z(2), <<15, 4>>>>
At(s, i) == s[((i - 1) % Len(s)) + 1]

\* 3-D points with rational r, rho, and both angles exact (axis points included)
SphPts(pols, azs) ==
  [n \in 1..(Len(pols) * Len(azs)) |->
     LET i == ((n - 1) \div Len(azs)) + 1
         j == ((n - 1) % Len(azs)) + 1
     IN Decode("SphericalPos", <<At(Radii, n + i), pols[i], azs[j]>>, R1)]
Pts3Full == SphPts(Pol8, Az12)
Pts3Few == SphPts(<<Ang90, A(3,5,4,5), A(-4,5,3,5)>>, AzFew)
Pts3Reg == SphPts(PolIn, Az12)           \* regular for every spherical chart
\* generic-looking regular points for Jacobians (z # 0 too)
Pts3Reg0 == SphPts(<<A(4,5,3,5), A(-3,5,4,5), A(3,5,4,5)>>, AzFew)

\* prolate spheroidal lattice for focal length Delta: rational mu, nu, R, z
Hyp == << <<<<5,4>>, <<3,4>>>>, <<<<5,3>>, <<4,3>>>>, <<<<13,12>>, <<5,12>>>> >>
CosV == << <<<<3,5>>, <<4,5>>>>, <<<<4,5>>, <<3,5>>>>, <<R0, R1>>, <<<<-3,5>>, <<4,5>>>>, <<<<-4,5>>, <<3,5>>>> >>
ProPt(delta, h, v, a) ==
  LET R == RMul(delta, RMul(h[2], v[2]))
  IN <<RMul(R, C(a)), RMul(R, S(a)), RMul(delta, RMul(h[1], v[1]))>>
ProPts(delta, hs, vs, azs) ==
  [n \in 1..(Len(hs) * Len(vs)) |->
     ProPt(delta, hs[((n - 1) \div Len(vs)) + 1], vs[((n - 1) % Len(vs)) + 1], At(azs, n))]
ProAxis(delta) == \* on the symmetry axis, beyond the foci
  <<ProPt(delta, Hyp[1], <<R1, R0>>, AngZero), ProPt(delta, Hyp[2], <<Z(-1), R0>>, AngZero)>>
ProReg(delta) == ProPts(delta, Hyp, <<CosV[1], CosV[2], CosV[4], CosV[5]>>, AzFew)
ProAll(delta) == ProPts(delta, Hyp, CosV, AzFew) \o ProAxis(delta)

Pts2 == [n \in 1..Len(Az12) |-> Decode("PolarPos", <<At(Radii, n), Az12[n]>>, R1)]
Pts1 == <<<<Z(3)>>, <<<<5, 2>>>>, <<R0>>, <<<<1, 8>>>>, <<Z(700)>>>>
Pts1Neg == <<<<Z(-3)>>, <<<<5, 2>>>>, <<R0>>>>

\* ---- literal steps ----
LitOf(d, cls, pts, delta, un) ==
  [op |-> "lit", d |-> d, cls |-> cls, shape |-> <<Len(pts)>>, delta |-> delta,
   comps |-> [i \in DOMAIN pts |-> Encode(cls, pts[i], delta)], u |-> un]
LitScalar(d, cls, p, delta, un) ==
  [op |-> "lit", d |-> d, cls |-> cls, shape |-> <<>>, delta |-> delta,
   comps |-> <<Encode(cls, p, delta)>>, u |-> un]

\* unit assignments (lists cycle over the components): physical lengths etc.
UnitSets == <<
  [len |-> <<"km">>, ang |-> <<"rad">>, time |-> "s"],
  [len |-> <<"kpc">>, ang |-> <<"deg">>, time |-> "Myr"],
  [len |-> <<"m", "km", "cm">>, ang |-> <<"deg", "rad">>, time |-> "h"],
  [len |-> <<"AU", "pc">>, ang |-> <<"arcmin", "deg">>, time |-> "yr"],
  [len |-> <<"pc">>, ang |-> <<"hourangle">>, time |-> "s"] >>
BaseFor(i) == IF i % 5 = 2 THEN [len |-> "kpc", time |-> "Myr"]
              ELSE IF i % 5 = 4 THEN [len |-> "pc", time |-> "yr"]
              ELSE IF i % 5 = 0 THEN [len |-> "pc", time |-> "s"]
              ELSE [len |-> "km", time |-> "s"]
U(i) == At(UnitSets, i)
Mags == <<0, -9, 7, 3, -4>>

Clip(s, a, b) == SubSeq(s, IF a < 1 THEN 1 ELSE a, IF b > Len(s) THEN Len(s) ELSE b)
FlattenAll(ss) == FlattenSeq(ss)

=============================================================================
