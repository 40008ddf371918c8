------------------------------ MODULE GenMode -------------------------------
(* P22: one call, every way of evaluating it.                                *)
(* A call on a batch means the same call on each element, whether it is      *)
(* evaluated at once, element by element, compiled, vectorised, inside       *)
(* control flow or under differentiation: the specification has no notion    *)
(* of a way of evaluating, so every way is judged by the same value.         *)
EXTENDS OpsLib
WholeM == <<"jit", "jvp", "twice", "eqxjit", "cond", "closure", "vjp", "remat">>
EachM == <<"vmap", "lmap", "each", "jitvmap", "scan">>
Along == <<"vlast", "vmap", "jitvmap">>
\* the ways of evaluating call number k: everything in a thorough run, otherwise a few that turn with the seed
Turn(ms, k, n) == IF Thorough THEN ms ELSE [i \in 1..n |-> At(ms, k + SEED + 3 * i)]
UnderM(st, ms) == [i \in DOMAIN ms |-> [st EXCEPT !.mode = ms[i]]]
WE(sts, k) == FlattenAll([i \in DOMAIN sts |-> UnderM(sts[i], Turn(WholeM, k + i, 1) \o Turn(EachM, k + 2 * i, 1))])
\* (loops cannot be compiled after the precision was switched in one process)
W32(sts, k) == FlattenAll([i \in DOMAIN sts |-> UnderM(sts[i], Turn(WholeM, k + i, 1) \o Turn(<<"vmap", "each", "jitvmap">>, k + 2 * i, 1))])
WO(sts, k) == FlattenAll([i \in DOMAIN sts |-> UnderM(sts[i], Turn(WholeM, k + i, 2))])
LO(sts, k) == FlattenAll([i \in DOMAIN sts |-> UnderM(sts[i], Turn(Along, k + i, 1))])
Mo(r) == [mode |-> "eager"] @@ r
Rp(d, a, c, kw) == Mo([op |-> "rep", d |-> d, a |-> <<a>>, cls |-> c, kw |-> kw])
Rd(d, a, c, kw) == Mo([op |-> "repd", d |-> d, a |-> a, cls |-> c, kw |-> kw])
Ar(f, a, form) == Mo([op |-> "arith", d |-> "r", f |-> f, a |-> a, form |-> form])
Ms(f, a, s, side) == Mo([op |-> "arith", d |-> "r", f |-> f, a |-> <<a>>, s |-> s, num |-> "float", side |-> side, form |-> "op"])
Eq(f, a, b) == Mo([op |-> "eq", d |-> "r", f |-> f, a |-> <<a, b>>, form |-> "op"])
Apl(a) == Mo([op |-> "apply", d |-> "r", a |-> a])
Nv(a) == Mo([op |-> "normv", d |-> "r", a |-> a])
Ax(f, a, r) == Mo([op |-> "arr", d |-> "r", f |-> f, a |-> <<a>>] @@ r)
Pro(c) == c \in {"ProlateSpheroidalPos", "ProlateSpheroidalVel", "ProlateSpheroidalAcc"}
Uc(a, v, k) == LET how == At(<<"usys", "consistent", "map">>, k)
                   st == [op |-> "uconv", d |-> "r", a |-> <<a>>, form |-> At(<<"func", "method">>, k), mode |-> "eager", how |-> how]
                         @@ (IF how = "usys" THEN [sys |-> At(<<"si", "galactic", "cgs">>, k)] ELSE IF how = "consistent" THEN [none |-> 0]
                             ELSE [map |-> ("length" :> "pc") @@ ("area" :> "pc2") @@ ("angle" :> "deg") @@ ("time" :> "Myr") @@ ("speed" :> "km/s") @@ ("angular speed" :> "deg/Myr")
                                           @@ ("acceleration" :> "km/s2") @@ ("angular acceleration" :> "deg/Myr2") @@ ("diffusivity" :> "pc2/Myr") @@ ("specific energy" :> "pc2/Myr2")])
               IN [want |-> WantUnits(st, v)] @@ st
PStub(c) == [k |-> "pos", cls |-> c]
UD(i) == [len |-> UL(i).len, ang |-> UL(i).ang, time |-> UL(i).time]
DKw(un) == [Delta |-> <<"len", <<Z(2)>>, <<>>, un>>]
\* a factor for each element
Fa(f, a, side) == Mo([op |-> "arith", d |-> "r", f |-> f, a |-> <<a>>, ss |-> <<Z(2), <<-1, 2>>, Z(3)>>, sshape |-> <<3>>, side |-> side, form |-> "op"])
EO(sts, k) == FlattenAll([i \in DOMAIN sts |-> UnderM(sts[i], Turn(EachM, k + i, 1))])
\* ---- points, vectors at them ----
SphP == << Decode("SphericalPos", <<Z(5), A(4,5,3,5), AngZero>>, R1), Decode("SphericalPos", <<Z(5), A(-3,5,4,5), A(3,5,4,5)>>, R1),
           Decode("SphericalPos", <<Z(2), A(3,5,4,5), Ang90>>, R1), Decode("SphericalPos", <<Z(10), A(-4,5,3,5), A(-4,5,-3,5)>>, R1),
           Decode("SphericalPos", <<<<5, 2>>, Ang90, A(-3,5,4,5)>>, R1), Decode("SphericalPos", <<Z(1), A(4,5,3,5), A(4,5,-3,5)>>, R1) >>
ProP == << ProPt(Z(2), Hyp[1], CosV[1], AngZero), ProPt(Z(2), Hyp[1], CosV[4], A(3,5,4,5)), ProPt(Z(2), Hyp[2], CosV[2], Ang90), ProPt(Z(2), Hyp[2], CosV[5], A(-4,5,-3,5)) >>
Cvs == << ZV(1, -2, 2), ZV(2, 3, -6), ZV(-4, 4, 7), ZV(6, -2, 3), ZV(-2, 1, 2) >>
PtsM(c, k, n) == [i \in 1..n |-> IF c \in {"ProlateSpheroidalPos", "ProlateSpheroidalVel", "ProlateSpheroidalAcc"} THEN At(ProP, k + i) ELSE At(SphP, k + i)]
Lp(d, c, pts, shape, un) == [LitOf(d, c, pts, Z(2), un) EXCEPT !.shape = shape]
Ldf(d, c, pts, off, shape, un) == [op |-> "lit", d |-> d, cls |-> c, shape |-> shape, delta |-> Z(2), u |-> un,
                                   comps |-> [i \in DOMAIN pts |-> FromCart(c, At(Cvs, i + off), pts[i], Z(2))]]
V7 == <<"CartesianVel3D", "CylindricalVel", "SphericalVel", "LonLatSphericalVel", "MathSphericalVel", "LonCosLatSphericalVel", "ProlateSpheroidalVel">>
A6 == <<"CartesianAcc3D", "CylindricalAcc", "SphericalAcc", "LonLatSphericalAcc", "MathSphericalAcc", "ProlateSpheroidalAcc">>
KwD(a, b) == IF Pro(a) \/ Pro(b) THEN DKw("lyr") ELSE <<>>
\* ---- positions ----
ScPos == [n \in 1..6 |->
  LET c == C3Seq[n]
      c2 == At(C3Seq, n + (1 + (SEED % 4)))
      p == PtsM(c, n + SEED, 3)
      others == SelectSeq(C3Seq, LAMBDA t : t # c)
  IN S0("pos-" \o c, LYR, 0, 64,
       << Lp("q", c, p, <<3>>, UL(n)), Lp("q2", c2, PtsM(c2, n + 2, 3), <<3>>, UL(n + 1)), LitScalar("z", c2, PtsM(c2, n, 1)[1], Z(2), UL(n)), LitT("t", <<3>>, <<Z(2), <<-1, 2>>, Z(3)>>, UL(n).time),
          MkRot("R", At(Mats, n), "q"), MkShift("S", "st", ZV(1, -2, 3), "qfrom", "lyr"), MkShift("B", "boost", << <<1, 2>>, Z(-1), Z(2)>>, "qfrom", "lyr/yr"), MkPipe("P", <<"R", "B", "S">>, "tuple"), Mk1("I", "inv", "P") >>
       \o WE([i \in DOMAIN others |-> Rp("r", "q", others[i], IF others[i] = "ProlateSpheroidalPos" THEN DKw("AU") ELSE <<>>)], n)
       \o WE(<< Ar("norm", <<"q">>, "op"), Ar("neg", <<"q">>, "op"), Ar("add", <<"q", "q2">>, "op"), Ar("sub", <<"q", "z">>, "func"), Ms("mul", "q", <<-3, 2>>, "R"), Ms("div", "q", Z(4), "R"),
               Eq("eq", "q", "q2"), Eq("eq", "q", "q"), Uc("q", PStub(c), n + SEED), Apl(<<"R", "q">>), Apl(<<"B", "q", "t">>), Apl(<<"P", "q", "t">>) >>, 2 * n)
       \o EO(<< Fa("mul", "q", "R"), Fa("mul", "q", "L"), Fa("div", "q", "R") >>, n) \o WO(<< Fa("div", "q", "R") >>, n)
       \o WO(<< Ax("index", "q", [idx |-> <<IInt(-1)>>]), Ax("reshape", "q", [shape |-> <<3, 1>>]), Ax("index", "q", [idx |-> <<ISl(NONE, NONE, -1)>>]), Apl(<<"P", "z", "t">>) >>, n)
       \o << [Apl(<<"I", "q", "t">>) EXCEPT !.mode = At(WholeM, n + SEED)] >>)]
\* several axes
ScLast == [n \in 1..5 |->
  LET c == C3Seq[n]
      others == SelectSeq(C3Seq, LAMBDA t : t # c /\ ~Pro(t))
  IN S0("axes-" \o c, LYR, 0, 64,
       << Lp("q", c, PtsM(c, n + SEED, 6), <<2, 3>>, UL(n)), Lp("q2", At(C3Seq, n + 2 + (IF n = 4 THEN 1 ELSE 0)), PtsM(At(C3Seq, n + 2 + (IF n = 4 THEN 1 ELSE 0)), n + 2, 6), <<2, 3>>, UL(n + 1)), Ldf("v", V7[n], PtsM(c, n + SEED, 6), 1, <<2, 3>>, UD(n)) >>
       \o LO([i \in DOMAIN others |-> Rp("r", "q", others[i], <<>>)], n)
       \o LO(<< Ar("norm", <<"q">>, "op"), Ar("neg", <<"q">>, "op"), Ar("add", <<"q", "q2">>, "op"), Eq("eq", "q", "q"), Rd("r", <<"v", "q">>, V7[(n % 5) + 1], <<>>) >>, n))]
\* ---- dimensions ----
Low4 == <<"CartesianPos1D", "RadialPos", "CartesianPos2D", "PolarPos">>
LowPts(c) == IF DimOf(c) = 1 THEN <<<<Z(3)>>, <<<<5, 2>>>>, <<Z(7)>>>> ELSE <<Pts2[2], Pts2[6], Pts2[9]>>
UpT(c) == (IF DimOf(c) = 1 THEN <<"CartesianPos2D", "PolarPos">> ELSE <<>>) \o <<"CartesianPos3D", "CylindricalPos", "SphericalPos", "MathSphericalPos">>
ScDim == [n \in 1..4 |->
  LET c == Low4[n]
      up == UpT(c)
      same == At(<<"RadialPos", "CartesianPos1D", "PolarPos", "CartesianPos2D">>, n)
      low == IF DimOf(c) = 2 THEN <<"CartesianPos1D", "RadialPos">> ELSE <<>>
  IN S0("dim-" \o c, LYR, 0, 64,
       << Lp("q", c, LowPts(c), <<3>>, UL(n)), Lp("q2", same, LowPts(same), <<3>>, UL(n + 1)) >>
       \o WE([i \in DOMAIN up |-> Rp("r", "q", up[i], <<>>)], n) \o WE([i \in DOMAIN low |-> Rp("r", "q", low[i], <<>>)], n)
       \o WE(<< Rp("r", "q", same, <<>>), Ar("norm", <<"q">>, "op"), Ar("add", <<"q", "q2">>, "op"), Eq("eq", "q", "q"), Uc("q", PStub(c), n) >>, n))]
ScLower == [n \in 1..3 |->
  LET c == <<"CartesianPos3D", "CylindricalPos", "MathSphericalPos">>[n]
  IN S0("low-" \o c, LYR, 0, 64, << Lp("q", c, PtsM(c, n + SEED, 3), <<3>>, UL(n)) >> \o WE([i \in 1..4 |-> Rp("r", "q", Low4[i], <<>>)], n))]
\* ---- velocities and accelerations ----
ScVel == [n \in 1..7 |->
  LET c == V7[n]
      pc == IF Pro(c) THEN "CartesianPos3D" ELSE At(C3Seq, ((n + SEED) % 5) + 1)
      p == PtsM(c, n + SEED, 3)
      ts == IF Pro(c) THEN <<"CartesianVel3D", "CylindricalVel", "ProlateSpheroidalVel">> ELSE [i \in 1..3 |-> At(V7, ((n + SEED + 2 * i) % 6) + 1)]
  IN S0("vel-" \o c, LYR, 0, 64,
       << Lp("p", pc, p, <<3>>, UL(n)), LitL("pq", <<3, 3>>, FlattenAll(p), Len1(n)), Ldf("v", c, p, n, <<3>>, UD(n)), Ldf("w", c, p, n + 1, <<3>>, UD(n + 1)),
          LitT("t", <<3>>, <<Z(2), Z(1), Z(3)>>, UL(n).time), MkShift("S", "st", ZV(1, -2, 3), "qfrom", "lyr") >>
       \o WE([i \in 1..3 |-> Rd("r", <<"v", IF i = 2 THEN "pq" ELSE "p">>, ts[i], KwD(c, ts[i]))], n)
       \o WE(<< Eq("eq", "v", "w"), Uc("v", [k |-> "vel", cls |-> c], n + SEED) >>
             \o (IF Pro(c) THEN <<>> ELSE << Nv(<<"v", "p">>) >>), n + 1))]
ScAcc == [n \in 1..6 |->
  LET c == A6[n]
      pc == IF Pro(c) THEN "CartesianPos3D" ELSE At(C3Seq, ((n + SEED + 1) % 5) + 1)
      vc == IF Pro(c) THEN "CartesianVel3D" ELSE At(V7, ((n + SEED) % 6) + 1)
      p == PtsM(c, n + SEED, 3)
      ts == IF Pro(c) THEN <<"CartesianAcc3D", "ProlateSpheroidalAcc">> ELSE [i \in 1..2 |-> At(A6, ((n + SEED + 2 * i) % 5) + 1)]
  IN S0("acc-" \o c, LYR, 0, 64,
       << Lp("p", pc, p, <<3>>, UL(n)), Ldf("v", vc, p, n, <<3>>, UD(n)), Ldf("a", c, p, n + 2, <<3>>, UD(n + 1)) >>
       \o WE([i \in DOMAIN ts |-> Rd("r", <<"a", "v", "p">>, ts[i], KwD(c, ts[i]))], n) \o WE(<< Uc("a", [k |-> "acc", cls |-> c], n + SEED) >>, n))]
\* the lower dimensions, and the dimension-agnostic classes
ScND == << S0("nd", LYR, 0, 64,
  << LitAny("q", "CartesianPosND", <<3>>, << <<3>> >>, 1, UD(1)), LitAny("v", "CartesianVelND", <<3>>, << <<3>> >>, 1, UD(1)) >>
  \o WE(<< Ar("norm", <<"q">>, "op"), Ar("neg", <<"q">>, "op"), Ar("add", <<"q", "q">>, "op"), Ms("mul", "q", Z(3), "L"), Eq("eq", "q", "q"), Uc("q", PStub("CartesianPosND"), 1) >>, 1)) >>
\* rates times a time: exact angles per unit time
RateEl(kd, l) == CASE kd = "len" -> Rn(5 * l - 13, (l % 4) + 1) [] kd = "rad" -> Rn(2 * l + 1, (l % 3) + 1) [] kd = "az" -> At(<<A(-3,5,4,5), Ang270, A(4,5,3,5)>>, l)
                   [] kd = "pol" -> At(<<AngZero, A(4,5,3,5), A(3,5,4,5)>>, l) [] kd = "lat" -> At(<<AngZero, A(4,5,3,5), <<<<4,5>>, <<-3,5>>, -1>>>>, l) [] kd \in {"mu", "nu"} -> Rn(3 * l - 5, (l % 2) + 1)
VT == <<"CartesianVel3D", "CylindricalVel", "SphericalVel", "LonLatSphericalVel", "MathSphericalVel", "PolarVel", "RadialVel", "CartesianAcc3D", "CylindricalAcc", "SphericalAcc">>
ScVT == [n \in DOMAIN VT |->
  LET kd == Kinds(PosOfDif(VT[n]))
  IN S0("vt-" \o VT[n], LYR, 0, 64,
       << [op |-> "lit", d |-> "v", cls |-> VT[n], shape |-> <<3>>, u |-> UD(n), comps |-> [e \in 1..3 |-> [j \in DOMAIN kd |-> RateEl(kd[j], n + e + 2 * j)]]],
          LitT("t", <<3>>, <<Z(1), Z(2), Z(1)>>, UL(n).time), LitT("s", <<>>, <<Z(2)>>, UL(n + 1).time) >>
       \o WE(<< Mo([op |-> "vtime", d |-> "r", a |-> <<"v", "t">>, form |-> "op"]), Mo([op |-> "vtime", d |-> "r", a |-> <<"v", "s">>, form |-> "op"]) >>, n))]
\* ---- events and collections ----
ScFv == [n \in 1..6 |->
  LET c == C3Seq[n]
      p == PtsM(c, n + SEED, 3)
  IN S0("ev-" \o c, LYR, 0, 64,
       << Lp("q", c, p, <<3>>, UL(n)), LitT("t", <<3>>, <<Z(2), <<-1, 2>>, Z(3)>>, UL(n).time), LitFv("f", "t", "q"),
          Lp("q2", At(C3Seq, n + 1), PtsM(At(C3Seq, n + 1), n, 3), <<3>>, UL(n + 1)), LitFv("g", "t", "q2"), MkShift("B", "boost", << <<1, 2>>, Z(-1), Z(2)>>, "qfrom", "lyr/yr"), MkRot("R", At(Mats, n), "np") >>
       \o WE(<< Ar("norm2", <<"f">>, "op"), Ar("neg", <<"f">>, "op"), Ar("add", <<"f", "g">>, "op"), Ar("sub", <<"f", "g">>, "op"), Mo([op |-> "fvget", d |-> "r", f |-> "q4", a |-> <<"f">>]),
               Apl(<<"B", "f">>), Apl(<<"R", "f">>), Eq("eq", "f", "f"), Mo([op |-> "fvget", d |-> "r", f |-> "q", a |-> <<"f">>]) >>, n))]
ScSp == [n \in 1..5 |->
  LET c == C3Seq[n]
      p == PtsM(c, n + SEED, 3)
  IN S0("sp-" \o c, LYR, 0, 64,
       << Lp("q", c, p, <<3>>, UL(n)), Ldf("v", At(V7, (n % 5) + 1), p, n, <<3>>, UD(n)), Ldf("a", At(A6, ((n + 2) % 5) + 1), p, n + 2, <<3>>, UD(n + 1)),
          [op |-> "litsp", d |-> "s", keys |-> <<"length", "speed", "acceleration">>, a |-> <<"q", "v", "a">>, form |-> "map"],
          [op |-> "litsp", d |-> "s2", keys |-> <<"length", "speed">>, a |-> <<"q", "v">>, form |-> "kw"] >>
       \o WE(<< Rp("r", "s", At(C3Seq, (n % 5) + 1), <<>>), Rp("r", "s2", At(C3Seq, ((n + 1) % 5) + 1), <<>>), Eq("eq", "s", "s"), Mo([op |-> "spget", d |-> "r", f |-> "same", a |-> <<"s">>, form |-> "id"]),
               Mo([op |-> "spget", d |-> "r", f |-> "member", a |-> <<"s">>, key |-> "speed", form |-> "item"]) >>, n)
       \o WO(<< Ax("index", "s2", [idx |-> <<IInt(1)>>]) >>, n))]
\* ---- distances and angles ----
Ld(d, cls, kd, vals, un) == [op |-> "litd", d |-> d, cls |-> cls, kd |-> kd, shape |-> <<Len(vals)>>, u |-> un, form |-> "ctor", mode |-> "eager", vals |-> vals]
Cv(a, to, sc, f) == Mo([op |-> "dconv", d |-> "r", a |-> <<a>>, to |-> to, sc |-> sc, form |-> f])
Da(f, a, form) == Mo([op |-> "darith", d |-> "r", f |-> f, a |-> a, form |-> form])
AU == [len |-> "AU", time |-> "yr"]
PC == [len |-> "pc", time |-> "yr"]
Dd(s) == [dist |-> TRUE] @@ s
ScDist == << Dd(S0("dist-AU", AU, 0, 64,
     << Ld("x", "Distance", "len", <<Z(2), <<3, 4>>, Z(5)>>, "AU"), Ld("y", "Distance", "len", <<Z(1), <<3, 4>>, Z(7)>>, "AU"), Ld("p", "Parallax", "ang", <<A(3,5,4,5), A(4,5,3,5), A(12,13,5,13)>>, "deg"),
        Ld("a", "Angle", "ang", <<A(3,5,4,5), <<<<4,5>>, <<3,5>>, 1>>, Ang270>>, "rad"), Ld("b", "Angle", "ang", <<A(-3,5,4,5), Ang90, A(4,5,-3,5)>>, "deg") >>
     \o WE(<< Cv("x", "Parallax", "AU", "prop"), Cv("p", "Distance", "AU", "prop"), Cv("p", "Distance", "AU", "from"), Cv("x", "Distance", "AU", "conv"), Da("add", <<"x", "y">>, "op"), Da("sub", <<"x", "y">>, "func"),
             Da("lt", <<"x", "y">>, "op"), Da("eq", <<"x", "y">>, "op"), Da("abs", <<"y">>, "op"), Da("add", <<"a", "b">>, "op"), Da("neg", <<"a">>, "op"), Da("sin", <<"a">>, "op"), Da("cos", <<"b">>, "func"), Da("sub", <<"a", "b">>, "func") >>, 1)
     \o WO(<< Da("sum", <<"x">>, "op"), Da("max", <<"x">>, "op") >>, 2))),
   Dd(S0("dist-pc", PC, 0, 64,
     << Ld("x", "Distance", "len", <<Z(10), Z(1000), <<1, 10>>>>, "pc"), Ld("m", "DistanceModulus", "mag", <<Z(5), Z(-5), Z(0)>>, "mag") >>
     \o WE(<< Cv("x", "DistanceModulus", "pc", "prop"), Cv("m", "Distance", "pc", "prop"), Cv("m", "Distance", "pc", "from") >>, 3))) >>
\* ---- construction ----
CtorC == <<"CartesianPos3D", "CylindricalPos", "SphericalPos", "LonLatSphericalPos", "MathSphericalPos", "PolarPos", "RadialPos", "CylindricalVel", "SphericalAcc", "LonLatSphericalVel">>
ScCtor == [n \in DOMAIN CtorC |->
  LET Ct(k, form) == [LitAny("x", CtorC[n], <<3>>, << <<3>> >>, n + k + SEED, UD(n + k)) EXCEPT !.op = "ctor"] @@ [form |-> form, rev |-> FALSE, mode |-> "eager"]
      L(k) == LitAny("x", CtorC[n], <<3>>, << <<3>> >>, n + k + SEED, UD(n + k)) @@ [mode |-> "eager"]
  IN S0("ctor-" \o CtorC[n], LYR, 0, 64, WE(<< Ct(1, "map"), Ct(2, "kw"), L(3), L(4) >>, n))]
\* radius, polar angle and azimuth anywhere
NPol == <<A(3,5,4,5), A(-4,5,-3,5), <<<<3,5>>, <<-4,5>>, -1>>, A(-3,5,4,5), <<<<4,5>>, <<-3,5>>, 1>>, Ang270>>
NLat == <<A(4,5,3,5), A(-4,5,3,5), <<<<4,5>>, <<-3,5>>, -1>>, A(-4,5,-3,5), Ang180>>
NRow(c, i) == LET r == At(<<Z(2), Z(-3), <<5, 2>>, Z(-1)>>, i + (i \div 4))
                  az == At(<<A(3,5,4,5), A(-4,5,-3,5), <<<<12,13>>, <<5,13>>, -2>>, Ang90, <<<<5,13>>, <<-12,13>>, 1>>>>, i + (i \div 3))
              IN CASE c = "SphericalPos" -> <<r, At(NPol, i), az>> [] c = "MathSphericalPos" -> <<r, az, At(NPol, i)>> [] OTHER -> <<az, At(NLat, i), r>>
NormC == <<"SphericalPos", "MathSphericalPos", "LonLatSphericalPos">>
ScNorm == [n \in 1..3 |->
  LET L(k) == [op |-> "lit", d |-> "x", cls |-> NormC[n], shape |-> <<6>>, comps |-> [i \in 1..6 |-> NRow(NormC[n], 6 * k + 5 * i)], u |-> UD(n + k), mode |-> "eager", ctor |-> "from_kw"]
  IN S0("norm-" \o NormC[n], LYR, 0, 64, WE(<< L(SEED), L(SEED + 1), L(SEED + 2) >>, n))]
\* ---- single precision ----
Sc32 == [n \in 1..6 |->
  LET c == C3Seq[n]
      c2 == At(C3Seq, (n % 5) + 1)
      p == PtsM(c, n + SEED, 3)
      ts == SelectSeq(C3Seq, LAMBDA t : t # c /\ ~Pro(t))
  IN S0("f32-" \o c, LYR, 0, 32,
       << Lp("q", c, p, <<3>>, UL(1)), Lp("q2", c2, p, <<3>>, UL(1)), Ldf("v", "CartesianVel3D", p, n, <<3>>, UD(1)), MkShift("S", "st", ZV(1, -2, 3), "qfrom", "lyr") >>
       \o W32([i \in DOMAIN ts |-> Rp("r", "q", ts[i], <<>>)], n)
       \o W32(<< Ar("norm", <<"q">>, "op"), Ar("add", <<"q", "q2">>, "op"), Ms("mul", "q", Z(2), "R"), Apl(<<"S", "q">>), Rd("r", <<"v", "q2">>, At(V7, (n % 5) + 1), <<>>) >>, n))]
Scenarios == ScPos \o ScLast \o ScDim \o ScLower \o ScVel \o ScAcc \o ScND \o ScVT \o ScFv \o ScSp \o ScDist \o ScCtor \o ScNorm \o Sc32
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
