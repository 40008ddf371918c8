------------------------------ MODULE GenFour ------------------------------
(* Spacetime events: every position class, times of their own or shared,     *)
(* every kind of interval, all the ways in and out.                         *)
EXTENDS OpsLib
Ar(d, f, a, form, mode) == [op |-> "arith", d |-> d, f |-> f, a |-> a, form |-> form, mode |-> mode]
Dv(d, a, s, num, form) == [op |-> "arith", d |-> d, f |-> "div", a |-> <<a>>, s |-> s, num |-> num, side |-> "R", form |-> form, mode |-> "eager"]
Fg(d, f, a, mode) == [op |-> "fvget", d |-> d, f |-> f, a |-> <<a>>, mode |-> mode]
Same(d, a, form) == [op |-> "fvget", d |-> d, f |-> "same", a |-> <<a>>, form |-> form]
Ff(d, a, form) == [op |-> "fvfrom", d |-> d, a |-> <<a>>, form |-> form, one |-> 1]
EqS(a, b) == [op |-> "eq", d |-> "e", f |-> "eq", a |-> <<a, b>>, form |-> "op", mode |-> "eager"]
Ev(d, t, q) == [one |-> 1] @@ LitFv(d, t, q)
EvM(d, t, q) == [one |-> 1, form |-> "map"] @@ LitFv(d, t, q)
CompName(c, i) == CASE c = "CartesianPos3D" -> At(<<"x", "y", "z">>, i) [] c = "CylindricalPos" -> At(<<"rho", "phi", "z">>, i)
   [] c = "LonLatSphericalPos" -> At(<<"lon", "lat", "distance">>, i) [] c = "ProlateSpheroidalPos" -> At(<<"mu", "nu", "phi">>, i)
   [] c = "SphericalPos" -> At(<<"r", "theta", "phi">>, i) [] c = "MathSphericalPos" -> At(<<"r", "theta", "phi">>, i)
Comps(c, x) == [i \in 1..3 |-> [op |-> "fvget", d |-> "g", f |-> "comp", a |-> <<x>>, i |-> i, name |-> CompName(c, i), mode |-> "eager"]]
C3 == <<"CartesianPos3D", "CylindricalPos", "SphericalPos", "LonLatSphericalPos", "MathSphericalPos", "ProlateSpheroidalPos">>
PP == << ProPt(Z(2), Hyp[1], CosV[1], AngZero), ProPt(Z(2), Hyp[1], CosV[4], A(3,5,4,5)),
         ProPt(Z(2), Hyp[2], CosV[2], Ang90), ProPt(Z(2), Hyp[2], CosV[5], A(-4,5,-3,5)),
         ProPt(Z(2), Hyp[1], CosV[2], Ang180), ProPt(Z(2), Hyp[3], CosV[1], A(4,5,-3,5)) >>
PtsF(c, k) == IF c = "ProlateSpheroidalPos" THEN PP ELSE [i \in 1..6 |-> At(Pts3Reg0, k + i)]
\* times giving timelike, spacelike and lightlike events with a rational interval
Ratio == << <<5, 4>>, <<3, 5>>, R1, <<-5, 3>>, R0, <<-4, 5>>, <<13, 12>>, <<12, 13>> >>
TimesF(pts, k) == [i \in DOMAIN pts |-> LET r == NormOf(pts[i]) IN IF IsRat(r) THEN RMul(At(Ratio, i + k), r) ELSE Rn(i + k - 4, 2)]
TU(i) == UL(i).time
Lq(d, c, pts, shape, un) == [LitOf(d, c, pts, Z(2), un) EXCEPT !.shape = shape]
Lt(d, vals, shape, i) == LitT(d, shape, vals, TU(i))
ArrOps(x, sh) == << [op |-> "meta", a |-> <<x>>] >>
  \o [k \in DOMAIN sh |-> [op |-> "arr", d |-> "z", f |-> sh[k].f, a |-> <<x>>] @@ sh[k]]
Idx(ix) == [f |-> "index", idx |-> ix]
Sys == <<"galactic", "si", "cgs", "solarsystem">>
Fm(d, a, v, how, k) == LET st == [op |-> "uconv", d |-> d, a |-> <<a>>, form |-> At(<<"func", "method">>, k), mode |-> "eager", how |-> how]
                               @@ (IF how = "usys" THEN [sys |-> At(Sys, k)] ELSE IF how = "consistent" THEN [none |-> 0]
                                   ELSE [map |-> ("length" :> "pc") @@ ("area" :> "pc2") @@ ("angle" :> "deg") @@ ("time" :> "Myr")])
                       IN [want |-> WantUnits(st, v)] @@ st
StubF(c) == [k |-> "fv", q |-> [cls |-> c, k |-> "pos"]]
Main(n, k) ==
  LET c == C3[n]
      c2 == At(C3, n + k)
      p == PtsF(c, 3 * k + n)
      p2 == PtsF(c2, 5 * k + n + 2)
  IN S0("ev-" \o c \o "-" \o ToString(k), LYR, 0, 64,
       << Lq("q", c, p, <<6>>, UL(n + k)), Lt("t", TimesF(p, k), <<6>>, n), Ev("f", "t", "q"),
          Ar("s", "norm2", <<"f">>, "op", "eager"), Ar("s", "norm", <<"f">>, "op", "eager"), Ar("s", "abs", <<"f">>, "op", "jit"),
          Lq("q2", c2, p2, <<6>>, UL(n + k + 1)), Lt("t2", TimesF(p2, k + 2), <<6>>, n + 1), EvM("h", "t2", "q2"),
          Ar("a", "add", <<"f", "h">>, "op", "eager"), Ar("b", "sub", <<"a", "h">>, "op", "eager"), Ar("m", "sub", <<"f", "h">>, "op", "jit"),
          Ar("b", "add", <<"m", "h">>, "op", "eager"), Ar("n", "neg", <<"f">>, "op", "eager"), Ar("nn", "neg", <<"n">>, "op", "jit"),
          Ar("u", "pos", <<"f">>, "op", "eager"), Ar("s", "norm2", <<"n">>, "op", "eager"),
          Dv("d", "f", Z(2), "int", "op"), Dv("d", "f", <<-5, 4>>, "float", "op"), Ar("s", "norm2", <<"d">>, "op", "eager"), Dv("d", "h", <<1, 4>>, "jnp", "op"),
          Fg("Q", "q4", "f", At(<<"eager", "jit">>, n)), Ff("r", "Q", "q"), Ff("r", "Q", "arr"), Ff("r", "Q", "list"),
          Fg("o", "q", "f", "eager"), Fg("o", "t", "f", "eager"), EqS("f", "f"), EqS("f", "n"), EqS("f", "h"),
          Same("v", "f", "from"), Same("v", "f", "map"), Same("v", "f", "tree"), Same("v", "f", "replace"),
          Fm("v", "f", StubF(c), "usys", n + k), Ar("s", "norm2", <<"v">>, "op", "eager"), Fg("Q", "q4", "v", "eager"), Ar("w", "add", <<"v", "h">>, "op", "eager"),
          Fm("v", "f", StubF(c), "map", n), Fm("v", "f", StubF(c), "consistent", k), EqS("n", "f") >>
       \o Comps(c, "f")
       \o ArrOps("f", << Idx(<<IInt(2)>>), Idx(<<ISl(NONE, NONE, -1)>>), Idx(<<IMask(<<1, 0, 0, 1, 1, 0>>)>>), Idx(<<INew, IEll>>),
                         [f |-> "reshape", shape |-> <<2, 3>>], [f |-> "reshape", shape |-> <<3, -1>>, how |-> "tuple"], [f |-> "iter", n |-> 4],
                         [f |-> "flatten"], [f |-> "T"] >>))
\* times shared by the positions
Shared(n, k) ==
  LET c == C3[n]
      p == PtsF(c, 2 * k + n)
      ts == At(<< <<>>, <<3>>, <<2, 1>>, <<1>>, <<1, 3>> >>, k)
      sz == SizeOf(ts)
      tv == [i \in 1..sz |-> Rn(3 * i - 4 + n, 2)]
  IN S0("sh-" \o c \o "-" \o ToString(k), LYR, 0, 64,
       << Lq("q", c, p, <<2, 3>>, UL(n)), Lt("t", tv, ts, n + k), Ev("f", "t", "q"), [op |-> "meta", a |-> <<"f">>],
          Fg("Q", "q4", "f", "eager"), Ff("r", "Q", "q"), Ar("s", "norm2", <<"f">>, "op", "eager"), Ar("s", "norm2", <<"f">>, "op", "jit"),
          Ar("n", "neg", <<"f">>, "op", "eager"), Ar("a", "add", <<"f", "n">>, "op", "eager"), Ar("a", "sub", <<"n", "f">>, "op", "eager"),
          Dv("d", "f", Z(4), "int", "op"), EqS("f", "f"), EqS("f", "n"), Fg("o", "q", "f", "eager"), Fg("o", "t", "f", "eager"),
          Fm("v", "f", StubF(c), "usys", n), Fg("Q", "q4", "v", "jit") >>
       \o Comps(c, "f")
       \o ArrOps("f", << Idx(<<IInt(1)>>), Idx(<<IAll, IInt(0)>>), Idx(<<IInt(0), IInt(2)>>), Idx(<<IEll, ISl(1, NONE, NONE)>>), Idx(<<IEll, INew>>),
                         [f |-> "T"], [f |-> "mT"], [f |-> "ravel"], [f |-> "reshape", shape |-> <<3, 2>>], [f |-> "iter", n |-> 1] >>))
\* one event, and the ways of writing the position
Single(n) ==
  LET c == C3[n]
      p == << PtsF(c, n)[n] >>
  IN S0("one-" \o c, LYR, 0, 64,
       << Lq("q", c, p, <<>>, UL(n + 1)), Lt("t", TimesF(p, n), <<>>, n + 2), Ev("f", "t", "q"), Ar("s", "norm", <<"f">>, "op", "eager"),
          [op |-> "eq", d |-> "e", f |-> "ne", a |-> <<"f", "f">>, form |-> "op", mode |-> "eager"],
          Ar("n", "neg", <<"f">>, "op", "eager"), Fg("Q", "q4", "f", "eager"), Ff("r", "Q", "list"), Ff("r", "Q", "q"),
          LitL("qq", <<3>>, p[1], Len1(n)), Ev("g", "t", "qq"), Fg("Q", "q4", "g", "jit"), Ar("a", "add", <<"g", "f">>, "op", "eager"),
          LitL("qb", <<2, 3>>, p[1] \o p[1], Len1(n + 1)), EvM("g", "t", "qb"), Fg("Q", "q4", "g", "eager") >>)
\* what is refused
Refuse == S0("refuse", LYR, 0, 64,
   << Lq("q", "CartesianPos3D", PtsF("CartesianPos3D", 1), <<6>>, UL(1)), Lq("q1", "SphericalPos", <<PtsF("SphericalPos", 1)[1]>>, <<>>, UL(2)),
      Lq("q23", "CylindricalPos", PtsF("CylindricalPos", 1), <<2, 3>>, UL(2)),
      Lt("t2", <<R1, Z(2)>>, <<2>>, 1), Lt("t3", <<R1, Z(2), Z(3)>>, <<3>>, 1), Lt("t63", [i \in 1..18 |-> Z(i)], <<3, 6>>, 1),
      Ev("f", "t2", "q"), Ev("f", "t2", "q1"), Ev("f", "t3", "q"), Ev("f", "t63", "q"), Ev("f", "t2", "q23"), Ev("f", "t3", "q1"),
      LitL("l1", <<>>, <<R1>>, "lyr"), Ev("f", "l1", "q"), EvM("f", "l1", "q1"),
      Lq("q2", "PolarPos", << <<Z(3), Z(4)>> >>, <<>>, UL(1)), LitT("t", <<>>, <<R1>>, "yr"), Ev("f", "t", "q2"),
      LitV("v", "CartesianVel3D", <<ZV(1, 2, 3)>>, <<>>, UV(1)), Ev("f", "t", "v"),
      LitL("l3", <<3>>, ZV(1, 2, 3), "lyr"), Ff("r", "l3", "q"), Ff("r", "l3", "list"),
      LitL("l5", <<5>>, ZV(1, 2, 3) \o <<Z(4), Z(5)>>, "lyr"), Ff("r", "l5", "q"), Ff("r", "l5", "list"), Ff("r", "l1", "q"),
      [LitL("s4", <<4>>, ZV(1, 2, 3) \o <<Z(4)>>, "yr") EXCEPT !.kind = "time"], Ff("r", "s4", "q"), Ff("r", "s4", "list"),
      LitL("l42", <<4, 2>>, [i \in 1..8 |-> Z(i)], "lyr"), Ff("r", "l42", "q"),
      LitL("l24", <<2, 4>>, [i \in 1..8 |-> Z(i)], "pc"), Ff("r", "l24", "q"), Fg("Q", "q4", "r", "eager"), Ff("r", "l24", "list"), Ff("r", "l24", "arr"),
      Ev("f", "t", "q"), Ar("a", "add", <<"f", "q">>, "op", "eager") >>)
\* other speeds of light are kept
OwnC(k) ==
  LET c == At(C3, k)
      p == PtsF(c, k)
      cv == At(<<Z(3), <<1, 2>>, Z(10)>>, k)
  IN S0("c-" \o ToString(k), At(<<LYR, [len |-> "km", time |-> "s"], [len |-> "kpc", time |-> "Myr"]>>, k), At(<<0, 3, 0>>, k), 64,
       << Lq("q", c, p, <<6>>, At(UnitSets, k)), LitT("t", <<6>>, [i \in 1..6 |-> Rn(2 * i - 7, 3)], At(<<"yr", "h", "Gyr">>, k)),
          LitFvC("f", "t", "q", cv, At(<<"km/s", "m/h", "kpc/Myr">>, k), At(<<"kw", "map">>, k)),
          Fg("Q", "q4", "f", "eager"), Ar("s", "norm2", <<"f">>, "op", "eager"), Ar("n", "neg", <<"f">>, "op", "eager"), Ar("s", "norm2", <<"n">>, "op", "eager"),
          Ar("a", "add", <<"n", "f">>, "op", "eager"), Dv("d", "f", Z(2), "int", "op"), Ar("s", "norm2", <<"d">>, "op", "jit"), Ar("m", "sub", <<"f", "n">>, "op", "eager"), Ar("s", "norm2", <<"m">>, "op", "eager"),
          Ar("m", "sub", <<"d", "f">>, "op", "jit"), Fg("Q", "q4", "m", "eager"), Ar("a", "add", <<"f", "d">>, "op", "jit"), Fg("Q", "q4", "a", "jit"), Ar("u", "pos", <<"f">>, "op", "eager"), Fg("Q", "q4", "u", "eager"), EqS("f", "u"), EqS("f", "n"),
          Same("v", "f", "from"), Same("v", "f", "map"), Same("v", "f", "tree"), Same("v", "f", "replace"), Fg("Q", "q4", "v", "eager"),
          Fm("v", "f", StubF(c), "usys", k), Ar("s", "norm2", <<"v">>, "op", "eager") >>
       \o ArrOps("f", << Idx(<<IInt(2)>>), [f |-> "reshape", shape |-> <<2, 3>>] >>))
F32(n) == S0("f32-" \o C3[n], LYR, 0, 32,
   << Lq("q", C3[n], SubSeq(PtsF(C3[n], n), 1, 3), <<3>>, UL(1)), Lt("t", <<R1, Z(-2), <<3, 2>>>>, <<3>>, 1), Ev("f", "t", "q"), Ar("n", "neg", <<"f">>, "op", "eager"),
      Dv("d", "f", Z(2), "int", "op"), Fg("Q", "q4", "f", "eager"), Ff("r", "Q", "q") >>)
KS == IF Thorough THEN 1..8 ELSE {(SEED % 4) + 1}
KSeq == SetToSortSeq(KS, <)
Scenarios == FlattenAll([j \in DOMAIN KSeq |-> [n \in 1..6 |-> Main(n, KSeq[j])]])
  \o FlattenAll([j \in 1..(IF Thorough THEN 5 ELSE 2) |-> [n \in 1..6 |-> Shared(n, ((n + j + SEED - 2) % 5) + 1)]])
  \o [n \in 1..6 |-> Single(n)] \o << Refuse >> \o [k \in 1..3 |-> OwnC(k)] \o [n \in 1..5 |-> F32(n)]
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
