------------------------------ MODULE GenDeriv ------------------------------
(* P25: derivatives of every map between positions along exact velocities,  *)
(* in forward and reverse mode, compiled and vectorised.                    *)
EXTENDS OpsLib
Vs == << <<Z(1), Z(-2), Z(2)>>, <<Z(2), Z(3), Z(-6)>>, <<Z(-4), Z(4), Z(7)>>, <<Z(6), Z(-2), Z(3)>>, <<Z(-2), Z(1), Z(2)>> >>
Sh(n) == IF n = 1 THEN <<>> ELSE IF n = 6 THEN <<2, 3>> ELSE <<n>>
X(d, c, pts, un) == [LitOf(d, c, pts, Z(2), un) EXCEPT !.shape = Sh(Len(pts))]
W(d, c, pts, off, un) == [op |-> "lit", d |-> d, cls |-> VelOfPos(c), shape |-> Sh(Len(pts)), delta |-> Z(2), u |-> un,
                          comps |-> [i \in DOMAIN pts |-> FromCart(VelOfPos(c), SubSeq(At(Vs, i + off), 1, Len(pts[i])), pts[i], Z(2))]]
Hows == <<"jvp", "vjp", "lin", "vjp">>
How(k) == At(Hows, k)
Mo(n, k) == IF n = 1 THEN At(<<"eager", "jit", "eager">>, k) ELSE At(<<"eager", "jit", "vmap", "eager">>, k)
De(f, a, k, n) == [op |-> "deriv", d |-> "r", f |-> f, a |-> a, how |-> How(k), mode |-> Mo(n, k \div 2)]
DKw(un) == [Delta |-> <<"len", <<Z(2)>>, <<>>, un>>]
DRep(t, k, n) == [cls |-> t, kw |-> IF t = "ProlateSpheroidalPos" THEN DKw("") ELSE <<>>] @@ De("rep", <<"x", "v">>, k, n)
SphP == Pts3Reg0
ProP == << ProPt(Z(2), Hyp[1], CosV[1], AngZero), ProPt(Z(2), Hyp[1], CosV[4], A(3,5,4,5)),
           ProPt(Z(2), Hyp[2], CosV[2], Ang90), ProPt(Z(2), Hyp[2], CosV[5], A(-4,5,-3,5)),
           ProPt(Z(2), Hyp[1], CosV[2], Ang180), ProPt(Z(2), Hyp[3], CosV[1], A(4,5,-3,5)) >>
C3 == C3Seq
P2 == [i \in 1..6 |-> Decode("PolarPos", <<At(<<Z(5), Z(2), <<5, 2>>>>, i), At(AzFew, i)>>, R1)]
P1 == [i \in 1..6 |-> <<Z(i + 1)>>]
PtsOfC(c, k, n) == LET s == IF c = "ProlateSpheroidalPos" THEN ProP ELSE IF DimOf(c) = 3 THEN SphP ELSE IF DimOf(c) = 2 THEN P2 ELSE P1
                   IN [i \in 1..n |-> At(s, k + i)]
Fam(c) == IF DimOf(c) = 3 THEN (IF c = "ProlateSpheroidalPos" THEN <<"CartesianPos3D", "CylindricalPos", "ProlateSpheroidalPos">> ELSE C3)
          ELSE IF DimOf(c) = 2 THEN <<"CartesianPos2D", "PolarPos">> ELSE <<"CartesianPos1D", "RadialPos">>
Reps(c, k, n) == LET f == Fam(c) IN
   [j \in DOMAIN f |-> IF f[j] = "ProlateSpheroidalPos" /\ c # "ProlateSpheroidalPos" THEN De("norm", <<"x", "v">>, j + k, n) ELSE DRep(f[j], j + k, n)]
Others(c, k, n) ==
   << De("norm", <<"x", "v">>, k, n), De("norm", <<"x", "v">>, k + 1, n), De("toq", <<"x", "v">>, k, n), De("toq", <<"x", "v">>, k + 1, n),
      [s |-> <<3, 2>>] @@ De("scale", <<"x", "v">>, k, n), [s |-> Z(2)] @@ De("scale", <<"x", "v">>, k + 1, n) >>
   \o (IF DimOf(c) = 1 THEN <<>> ELSE << De("neg", <<"x", "v">>, k + 1, n), De("neg", <<"x", "v">>, k, n) >>)
   \o << De("add", <<"x", "v", "b">>, k, n), De("add", <<"x", "v", "b">>, k + 1, n) >>
   \o (IF DimOf(c) = 1 THEN <<>> ELSE << De("sub", <<"x", "v", "b">>, k + 1, n) >>)
Sets(c, k, n) ==
  << X("x", c, PtsOfC(c, k, n), U(k)), W("v", c, PtsOfC(c, k, n), k, U(k + 1)),
     X("b", IF DimOf(c) = 3 THEN At(SubSeq(C3, 1, IF c = "ProlateSpheroidalPos" THEN 2 ELSE 5), k) ELSE At(Fam(c), k), IF n = 1 THEN <<PtsOfC(c, k, n)[1]>> ELSE PtsOfC(c, k, n), U(k + 2)) >>
One(c, ci, k, n) == S0("dv-" \o c \o "-" \o ToString(n) \o "-" \o ToString(k), BaseFor(ci + k), At(<<0, 0, 7, -9>>, ci + k), 64, Sets(c, ci + k, n) \o Reps(c, k, n) \o Others(c, k, n))
AllC == C3 \o <<"CartesianPos2D", "PolarPos", "CartesianPos1D", "RadialPos">>
K0 == 4 * SEED
Maps == FlattenAll([r \in 1..(IF Thorough THEN 6 ELSE 1) |-> FlattenAll([i \in DOMAIN AllC |->
          LET k == K0 + 3 * r + i IN << One(AllC[i], i, k, 6), One(AllC[i], i, k + 1, 1), One(AllC[i], i, k + 2, 4) >>])])
Os == <<"R1", "R2", "S1", "S2", "PP">>
OpsSc == [i \in 1..(IF Thorough THEN 12 ELSE 3) |-> LET k == i + K0
                                                       c == At(C3, k) IN
          S0("dvop-" \o ToString(i), LYR, 0, 64, SubSeq(Pool(k), 1, 5) \o << MkPipe("PP", <<"R1", "S1", "R2">>, "pipe") >>
             \o FlattenAll([j \in 1..2 |-> LET cc == IF j = 1 THEN c ELSE "CartesianPos3D" IN
                  << X("x", cc, PtsOfC(cc, k, 4), UL(k)), W("v", cc, PtsOfC(cc, k, 4), k, UL(k)) >>
                  \o FlattenAll([o \in DOMAIN Os |-> << De("apply", <<"x", "v", Os[o]>>, o + k, 4), De("apply", <<"x", "v", Os[o]>>, o + k + 1, 4) >>])]))]
\* the position under a moving operator, as the time goes by
Td(d, shape, vals, k) == LitT(d, shape, vals, UL(k).time)
TimeSc == [i \in 1..(IF Thorough THEN 10 ELSE 3) |-> LET k == i + K0
                                                         os == Clip(<<"B1", "G1", "GO", "GO2", "P3", "P4">>, k, k + 3)
                                                         cc == At(SubSeq(C3, 1, 5), k) IN
          S0("dvt-" \o ToString(i), LYR, 0, 64, Pool(k) \o Gal(k) \o << MkPipe("P3", <<"B1", "G1">>, "tuple"), MkPipe("P4", <<"R1", "GO", "S1", "B1">>, "tuple") >> \o << X("x", cc, PtsOfC(cc, k, 4), UL(k)), X("y", "CartesianPos3D", PtsOfC("CartesianPos3D", k, 1), UL(k + 1)), X("z", "CartesianPos3D", PtsOfC("CartesianPos3D", k + 2, 4), UL(k + 3)),
                   Td("t", <<4>>, <<Z(1), <<-1, 2>>, Z(3), R0>>, k), Td("t1", <<>>, <<<<3, 2>>>>, k + 1) >>
             \o FlattenAll([o \in DOMAIN os |-> (IF os[o] \in {"B1", "G1"} THEN << De("dtime", <<"x", "t", os[o]>>, o + k, 4) >> ELSE <<>>) \o << De("dtime", <<"z", "t", os[o]>>, o + k + 1, 4), De("dtime", <<"y", "t1", os[o]>>, o + k + 1, 1), De("dtime", <<"y", "t", os[o]>>, o + k + 2, 1) >>]))]
Scenarios == Maps \o OpsSc \o TimeSc
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
