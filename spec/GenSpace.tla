------------------------------ MODULE GenSpace ------------------------------
(* Collections of a position, a velocity and an acceleration: every way of   *)
(* writing them, members in different representations and with shapes of     *)
(* their own, re-expressed through every class, and as arrays.              *)
EXTENDS OpsLib
C5 == <<"CartesianPos3D", "CylindricalPos", "SphericalPos", "LonLatSphericalPos", "MathSphericalPos">>
V6 == <<"CartesianVel3D", "CylindricalVel", "SphericalVel", "LonLatSphericalVel", "MathSphericalVel", "LonCosLatSphericalVel">>
A5 == <<"CartesianAcc3D", "CylindricalAcc", "SphericalAcc", "LonLatSphericalAcc", "MathSphericalAcc">>
Pts == << Decode("SphericalPos", <<Z(5), A(4,5,3,5), AngZero>>, R1),
          Decode("SphericalPos", <<Z(5), A(-3,5,4,5), A(3,5,4,5)>>, R1),
          Decode("SphericalPos", <<Z(2), A(3,5,4,5), Ang90>>, R1),
          Decode("SphericalPos", <<Z(10), A(-4,5,3,5), A(-4,5,-3,5)>>, R1),
          Decode("SphericalPos", <<<<5, 2>>, Ang90, A(-3,5,4,5)>>, R1),
          Decode("SphericalPos", <<Z(1), A(4,5,3,5), A(4,5,-3,5)>>, R1) >>
Cvs == << ZV(1, -2, 2), ZV(2, 3, -6), ZV(-4, 4, 7), ZV(6, -2, 3), ZV(-2, 1, 2) >>
PtAt(k) == [i \in 1..6 |-> At(Pts, i + k)]
Lq(d, c, pts, shape, un) == [LitOf(d, c, pts, Z(2), un) EXCEPT !.shape = shape]
Ld(d, c, pts, off, shape, un) ==
  [op |-> "lit", d |-> d, cls |-> c, shape |-> shape, delta |-> Z(2), u |-> un,
   comps |-> [i \in DOMAIN pts |-> FromCart(c, At(Cvs, i + off), pts[i], Z(2))]]
UD(i) == [len |-> UL(i).len, ang |-> UL(i).ang, time |-> UL(i).time]
Ls(d, keys, a, form) == [op |-> "litsp", d |-> d, keys |-> keys, a |-> a, form |-> form]
Mem(d, s, key, form) == [op |-> "spget", d |-> d, f |-> "member", a |-> <<s>>, key |-> key, form |-> form]
Keys(s, form) == [op |-> "spget", f |-> "keys", a |-> <<s>>, form |-> form]
Same(d, s, form) == [op |-> "spget", d |-> d, f |-> "same", a |-> <<s>>, form |-> form, mode |-> "eager"]
SameM(d, s, mode) == [op |-> "spget", d |-> d, f |-> "same", a |-> <<s>>, form |-> "id", mode |-> mode]
Get1(d, f, s, form, mode) == [op |-> "spget", d |-> d, f |-> f, a |-> <<s>>, form |-> form, mode |-> mode]
WithM(d, s, key, x, form) == [op |-> "spget", d |-> d, f |-> "with", a |-> <<s, x>>, key |-> key, form |-> form, mode |-> "eager"]
Rp(d, s, c, form, mode) == [op |-> "rep", d |-> d, a |-> <<s>>, cls |-> c, form |-> form, mode |-> mode]
EqS(a, b, form) == [op |-> "eq", d |-> "e", f |-> "eq", a |-> <<a, b>>, form |-> form, mode |-> "eager"]
EqM(a, b, mode) == [op |-> "eq", d |-> "e", f |-> "eq", a |-> <<a, b>>, form |-> "op", mode |-> mode]
Ar(d, f, a) == [op |-> "arith", d |-> d, f |-> f, a |-> <<a>>, form |-> "op", mode |-> "eager"]
Idx(ix) == [f |-> "index", idx |-> ix]
ArrS(x, sh) == << [op |-> "meta", a |-> <<x>>] >> \o [k \in DOMAIN sh |-> [op |-> "arr", d |-> "z", f |-> sh[k].f, a |-> <<x>>] @@ sh[k]]
Sys == <<"galactic", "si", "cgs", "solarsystem">>
Stub(cs) == [k |-> "space", m |-> [d \in DOMAIN cs |-> [cls |-> cs[d], k |-> IF d = "length" THEN "pos" ELSE IF d = "speed" THEN "vel" ELSE "acc"]]]
UMap == ("length" :> "pc") @@ ("area" :> "pc2") @@ ("angle" :> "deg") @@ ("speed" :> "km/s") @@ ("angular speed" :> "deg/Myr")
        @@ ("acceleration" :> "km/s2") @@ ("angular acceleration" :> "deg/Myr2")
Uc(d, a, stub, how, k) == LET st == [op |-> "uconv", d |-> d, a |-> <<a>>, form |-> At(<<"func", "method">>, k), mode |-> "eager", how |-> how]
                                @@ (IF how = "usys" THEN [sys |-> At(Sys, k)] ELSE IF how = "consistent" THEN [none |-> 0] ELSE [map |-> UMap])
                          IN [want |-> SpWant(st, stub)] @@ st
KF == <<"list", "keys", "items", "fields", "asdict", "in">>
SF == <<"kw", "map", "dimmap", "pairs", "dimpairs", "mixed">>
K3 == <<"length", "speed", "acceleration">>
Q3 == <<"q", "v", "a">>
Trans(n, k) == LET c == C5[n] IN [cp |-> c, cv |-> At(V6, 2 * n + k), ca |-> At(A5, 3 * n + k + 1)]
Main(n, k) ==
  LET t == Trans(n, k)
      p == PtAt(k)
      sh == IF (n + k) % 3 = 0 THEN <<2, 3>> ELSE <<6>>
      c(i) == At(C5, n + i)
  IN S0("sp-" \o t.cp \o "-" \o ToString(k), LYR, 0, 64,
       << Lq("q", t.cp, p, sh, UD(n + k)), Ld("v", t.cv, p, k, sh, UV(n)), Ld("a", t.ca, p, k + 2, sh, UD(n + 1)),
          Ls("s", K3, Q3, At(SF, n + k)), Ls("s2", <<"length", "velocity">>, <<"q", "v">>, At(SF, n + k + 1)), Ls("s1", <<"length">>, <<"q">>, At(SF, n + 2)),
          Mem("x", "s", "length", "item"), Mem("x", "s", "speed", At(<<"get", "values", "item">>, k)), Mem("x", "s", "acceleration", "dim"), Mem("x", "s2", "velocity", "dim"),
          Keys("s", At(KF, n + k)), Keys("s2", At(KF, n + k + 2)), Keys("s1", At(KF, n + k + 4)) >>
       \o [i \in 1..5 |-> Rp("r" \o ToString(i), At(<<"s", "s2">>, i + k), C5[i], At(<<"func", "method">>, i), At(<<"eager", "jit", "eager">>, i + n))]
       \o << Rp("b", "r" \o ToString((n % 5) + 1), c(2 + k), "method", "eager"), Mem("x", "b", "speed", "item"), Rp("b", "b", t.cp, "func", "jit"),
             Rp("b", "s1", c(3), "method", "vmap"), Rp("b", "s2", c(4), "method", "vmap"), Mem("x", "b", "length", "item"),
             Same("c", "s", At(<<"from", "ctor", "items", "tree", "replace", "rep", "repf">>, n)), Same("c", "s2", At(<<"from", "ctor", "items", "tree", "replace", "rep", "repf">>, n + 3 + k)),
             SameM("c", "s", "jit"), SameM("c", "s2", "vmap"), EqS("s", "c", "op"),
             Get1("pp", "pp", "s2", At(<<"func", "method">>, n), At(<<"eager", "jit">>, k)), Get1("pb", "ppback", "s", "", "eager"),
             Get1("f", "frompos", "q", "", "eager"), Keys("f", "list"),
             Ld("v2", t.cv, p, k + 3, sh, UV(n + 1)), WithM("w", "s", "speed", "v2", At(<<"replace", "ctor">>, n)), EqS("s", "w", "op"), EqS("w", "w", "op"),
             Mem("x", "w", "length", "item"), Mem("x", "w", "speed", "item"), EqS("s2", "w", "op"), EqM("s2", "s2", "jit"),
             WithM("w", "s1", "speed", "v2", "replace"), Rp("x", "w", c(1), "method", "eager"), WithM("w", "s", "length", "q", "ctor"), EqS("s", "w", "op"),
             [op |-> "uconv"] @@ Uc("u", "s", Stub(("length" :> t.cp) @@ ("speed" :> t.cv) @@ ("acceleration" :> t.ca)), "usys", n + k),
             Rp("x", "u", c(2), "method", "eager"), EqS("u", "u", "op"),
             Uc("u", "s2", Stub(("length" :> t.cp) @@ ("speed" :> t.cv)), "map", n + k), Rp("x", "u", c(1), "method", "eager"),
             Uc("u", "s2", Stub(("length" :> t.cp) @@ ("speed" :> t.cv)), "consistent", k) >>
       \o ArrS("s", IF Len(sh) = 2 THEN << Idx(<<IInt(1)>>), Idx(<<IAll, ISl(NONE, NONE, -1)>>), Idx(<<IInt(0), IInt(2)>>), [f |-> "T"], [f |-> "mT"], [f |-> "ravel"], [f |-> "reshape", shape |-> <<3, 2>>] >>
                    ELSE << Idx(<<IInt(2)>>), Idx(<<ISl(NONE, NONE, -2)>>), Idx(<<IMask(<<1, 0, 0, 1, 1, 0>>)>>), Idx(<<INew, IEll>>), [f |-> "reshape", shape |-> <<2, 3>>],
                            [f |-> "reshape", shape |-> <<3, -1>>, how |-> "tuple"], [f |-> "flatten"] >>)
       \o << Rp("x", "z", c(3), "method", "eager") >>)
\* a Cartesian collection reflects through the origin
Cart(k) ==
  LET p == PtAt(k)
  IN S0("cart-" \o ToString(k), LYR, 0, 64,
       << Lq("q", "CartesianPos3D", p, <<6>>, UD(k)), Ld("v", "CartesianVel3D", p, k, <<6>>, UV(k + 1)), Ld("a", "CartesianAcc3D", p, k + 1, <<6>>, UD(k + 2)),
          Ls("s", K3, Q3, "kw"), Ar("n", "neg", "s"), Ar("m", "neg", "n"), EqS("s", "m", "op"), EqS("s", "n", "op"),
          Rp("r", "n", At(C5, k + 1), "method", "eager"), Ls("s1", <<"length">>, <<"q">>, "kw"), Rp("r", "s1", At(C5, k + 1), "method", "eager"), Ar("n", "neg", "r"),
          Get1("pp", "pp", "s", "method", "eager"), Get1("pb", "ppback", "s", "", "eager"), Rp("r", "pb", "CartesianPos3D", "method", "eager") >>)
\* members with shapes of their own
MixShapes == << << <<2, 3>>, <<3>>, <<2, 1>> >>, << <<3>>, <<>>, <<1>> >>, << <<>>, <<2, 3>>, <<3>> >>, << <<2, 1>>, <<3>>, <<>> >>, << <<1>>, <<3>>, <<2, 3>> >> >>
PtsN(k, sh) == [i \in 1..SizeOf(sh) |-> At(Pts, i + k)]
Mixed(n, k) ==
  LET t == Trans(n, k + 1)
      ms == At(MixShapes, n + k)
      full == BShape2(BShape2(ms[1], ms[2]), ms[3])
  IN S0("mix-" \o t.cp \o "-" \o ToString(k), LYR, 0, 64,
       << Lq("q", t.cp, PtsN(k, ms[1]), ms[1], UD(n)),
          Ld("v", At(<<"CartesianVel3D", "CylindricalVel">>, n), PtsN(k, ms[2]), k, ms[2], UV(n + k)),
          Ld("a", "CartesianAcc3D", PtsN(k, ms[3]), n, ms[3], UD(n + 2)),
          Ls("s", K3, Q3, At(SF, k + n)), [op |-> "meta", a |-> <<"s">>], Mem("x", "s", "length", "item"), Mem("x", "s", "speed", "item"),
          Rp("r", "s", "CartesianPos3D", "method", "eager"), Rp("r", "r", t.cp, "func", "eager"), Rp("r", "s", "CartesianPos3D", "method", "jit"),
          Ls("s2", <<"length", "speed">>, <<"q", "v">>, "kw"), [op |-> "meta", a |-> <<"s2">>], Get1("pp", "pp", "s2", "method", "eager"),
          Rp("r", "s2", "CartesianPos3D", "method", "jit"), EqS("s", "s", "op"), EqS("s2", "s2", "op"), SameM("c", "s", "jit"), EqS("s", "c", "op"), Same("c", "s", "tree"),
          Uc("u", "s", Stub(("length" :> t.cp) @@ ("speed" :> At(<<"CartesianVel3D", "CylindricalVel">>, n)) @@ ("acceleration" :> "CartesianAcc3D")), "usys", n),
          Rp("r", "u", "CartesianPos3D", "method", "eager") >>
       \o ArrS("s", (IF Len(full) = 2 THEN << Idx(<<IInt(1)>>), Idx(<<IAll, IInt(0)>>), Idx(<<IEll, ISl(1, NONE, NONE)>>), [f |-> "T"], [f |-> "mT"], [f |-> "reshape", shape |-> <<3, 2>>] >>
                     ELSE IF Len(full) = 1 THEN << Idx(<<IInt(0)>>), Idx(<<ISl(NONE, NONE, -1)>>) >> ELSE << >>)
                     \o << [f |-> "flatten"], [f |-> "reshape", shape |-> <<SizeOf(full), 1>>], Idx(<<IEll, INew>>) >>)
       \o << Rp("r", "z", "CartesianPos3D", "method", "eager") >>)
\* planes and lines
P2s == [i \in 1..4 |-> Decode("PolarPos", <<At(<<Z(5), Z(2), <<5, 2>>>>, i), At(AzFew, i)>>, R1)]
V2s == << <<Z(3), Z(-4)>>, <<Z(-5), Z(12)>>, <<Z(8), Z(15)>> >>
Ld2(d, c, pts, off, un) == [op |-> "lit", d |-> d, cls |-> c, shape |-> <<4>>, u |-> un, delta |-> R1, comps |-> [i \in DOMAIN pts |-> FromCart(c, At(V2s, i + off), pts[i], R1)]]
Plane(i) ==
  LET c == At(<<"CartesianPos2D", "PolarPos">>, i)
      o == At(<<"CartesianPos2D", "PolarPos">>, i + 1)
  IN S0("plane-" \o c, LYR, 0, 64,
       << Lq("q", c, P2s, <<4>>, UD(i)), Ld2("v", At(<<"CartesianVel2D", "PolarVel">>, i + 1), P2s, i, UV(i)), Ld2("a", At(<<"CartesianAcc2D", "PolarAcc">>, i), P2s, i + 1, UD(i + 1)),
          Ls("s", K3, Q3, "kw"), Rp("r", "s", o, "method", "eager"), Rp("r", "r", c, "method", "jit"), Rp("r", "s", c, "method", "eager"), EqS("s", "s", "op"),
          Ls("s2", <<"length", "speed">>, <<"q", "v">>, "pairs"), Rp("r", "s2", o, "func", "vmap"), [op |-> "arr", d |-> "z", f |-> "index", a |-> <<"s">>, idx |-> <<ISl(1, 3, NONE)>>], Rp("r", "z", o, "method", "eager") >>)
Line == S0("line", LYR, 0, 64,
   << Lq("q", "CartesianPos1D", << <<Z(3)>>, <<Z(5)>>, <<<<7, 2>>>> >>, <<3>>, UD(1)), LitV("v", "RadialVel", << <<Z(-2)>>, <<Z(1)>>, <<<<1, 2>>>> >>, <<3>>, UV(2)),
      [op |-> "lit", d |-> "a", cls |-> "CartesianAcc1D", shape |-> <<3>>, u |-> UD(1), delta |-> R1, comps |-> << <<Z(4)>>, <<Z(-1)>>, <<Z(2)>> >>],
      Ls("s", K3, Q3, "kw"), Rp("r", "s", "RadialPos", "method", "eager"), Rp("r", "r", "CartesianPos1D", "method", "eager"), Mem("x", "r", "speed", "item") >>)
Refuse == S0("refuse", LYR, 0, 64,
   << Lq("q", "CartesianPos3D", PtAt(0), <<6>>, UD(1)), Ld("v", "CartesianVel3D", PtAt(0), 0, <<6>>, UV(1)), Ld("v4", "CartesianVel3D", Clip(PtAt(0), 1, 4), 0, <<4>>, UV(1)),
      Ld("a", "CartesianAcc3D", PtAt(0), 0, <<6>>, UD(1)), Ld("a23", "CartesianAcc3D", PtAt(0), 0, <<2, 3>>, UD(1)), Ld("v23", "CartesianVel3D", PtAt(0), 0, <<2, 3>>, UV(1)) >>
   \o [i \in 1..6 |-> Ls("s", <<"length", "speed">>, <<"q", "v4">>, SF[i])]
   \o << Ls("s", <<"length", "speed", "acceleration">>, <<"q", "v", "a23">>, "kw"), Ls("s", <<"length", "speed">>, <<"q", "v23">>, "kw"),
         Ls("s", <<"length", "speed", "velocity">>, <<"q", "v", "v">>, "kw"), Ls("s", <<"length", "velocity", "speed">>, <<"q", "v", "v">>, "map"), Ls("s", <<"speed", "velocity">>, <<"v", "v">>, "pairs"),
         Ls("s", <<"speed">>, <<"v">>, "kw"), Rp("r", "s", "SphericalPos", "method", "eager"), Get1("pp", "pp", "s", "method", "eager"), Mem("x", "s", "length", "item"), Mem("x", "s", "length", "dim"),
         Ls("s", <<"length">>, <<"q">>, "kw"), Get1("pp", "pp", "s", "method", "eager"), Mem("x", "s", "speed", "item"), Mem("x", "s", "acceleration", "dim"),
         WithM("w", "s", "speed", "v4", "replace"), WithM("w", "s", "speed", "v23", "ctor"), WithM("w", "s", "speed", "v", "ctor"),
         Ls("s", <<"length", "acceleration">>, <<"q", "a">>, "kw"), Rp("r", "s", "SphericalPos", "method", "eager"), Keys("s", "list"),
         Ls("s", <<"length", "speed">>, <<"q", "v">>, "kw"), [op |-> "arr", d |-> "z", f |-> "mT", a |-> <<"s">>] >>)
F32(n) == S0("f32-" \o C5[n], LYR, 0, 32,
   << Lq("q", C5[n], Clip(PtAt(n), 1, 3), <<3>>, UD(1)), Ld("v", "CartesianVel3D", Clip(PtAt(n), 1, 3), n, <<3>>, UV(1)), Ls("s", <<"length", "speed">>, <<"q", "v">>, "kw"),
      Rp("r", "s", "CartesianPos3D", "method", "eager"), EqS("s", "s", "op"), [op |-> "arr", d |-> "z", f |-> "index", a |-> <<"s">>, idx |-> <<IInt(1)>>] >>)
KS == IF Thorough THEN 1..5 ELSE {(SEED % 5) + 1}
KSeq == SetToSortSeq(KS, <)
Scenarios == FlattenAll([j \in DOMAIN KSeq |-> [n \in 1..5 |-> Main(n, KSeq[j])]])
  \o FlattenAll([j \in DOMAIN KSeq |-> [n \in 1..5 |-> Mixed(n, KSeq[j])]])
  \o [j \in DOMAIN KSeq |-> Cart(KSeq[j])] \o [i \in 1..2 |-> Plane(i)] \o << Line, Refuse >> \o (IF Thorough THEN [n \in 1..5 |-> F32(n)] ELSE << F32((SEED % 5) + 1) >>)
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
