------------------------------- MODULE GenDist -------------------------------
(* Distances, parallaxes, distance moduli and angles: every way of writing   *)
(* one, every conversion between them, and their arithmetic.                *)
EXTENDS Shapes, IOUtils
Thorough == IOEnv.TIER = "thorough"
SEED == atoi(IOEnv.SEED)
SAU == [len |-> "AU", time |-> "yr"]
SPC == [len |-> "pc", time |-> "yr"]
D0(id, sc, prec, steps) == [id |-> id, base |-> IF sc = "AU" THEN SAU ELSE SPC, mag |-> 0, prec |-> prec, dist |-> TRUE, steps |-> steps]
Ld(d, cls, kd, shape, vals, un, form, mode) ==
  [op |-> "litd", d |-> d, cls |-> cls, kd |-> kd, shape |-> shape, vals |-> vals, u |-> un, form |-> form, mode |-> mode,
   unit_as |-> IF Len(form) = 4 THEN "unit" ELSE "str"]
Cv(d, a, to, sc, form, mode) == [op |-> "dconv", d |-> d, a |-> <<a>>, to |-> to, sc |-> sc, form |-> form, mode |-> mode]
CvU(d, a, to, sc, un, mode) == [u |-> un] @@ Cv(d, a, to, sc, "uconv", mode)
Da(d, f, a, form, mode) == [op |-> "darith", d |-> d, f |-> f, a |-> a, form |-> form, mode |-> mode]
Dm(d, f, a, s, num, side) == [op |-> "darith", d |-> d, f |-> f, a |-> <<a>>, s |-> s, num |-> num, side |-> side]
Dp(d, a, n, mode) == [op |-> "darith", d |-> d, f |-> "pow", a |-> <<a>>, n |-> n, mode |-> mode]
Ix(a, items) == [op |-> "arr", d |-> "ix", f |-> "index", a |-> <<a>>, idx |-> items, mode |-> "eager"]
Rs(a, sh) == [op |-> "arr", d |-> "ix", f |-> "reshape", a |-> <<a>>, shape |-> sh, mode |-> "eager"]
Forms == <<"ctor", "npctor", "from2", "list", "fromq", "conv">>
Modes == <<"eager", "jit", "vmap", "jitvmap">>
\* a value with no axis cannot be mapped over
Md(sh, i) == At(IF sh = <<>> THEN <<"eager", "jit">> ELSE Modes, i)
DUn(kd, sc) == CASE kd = "len" -> (IF sc = "AU" THEN <<"AU", "km", "lyr", "m", "pc">> ELSE <<"pc", "kpc", "lyr", "Mpc", "AU">>)
                [] kd = "ang" -> <<"deg", "rad", "arcmin", "mas", "hourangle">>
                [] kd = "arc" -> <<"mas", "arcsec", "deg", "rad", "uas">> [] OTHER -> <<"mag">>
\* lengths whose parallaxes are exact angles, and a few whose are not
LenAU(i) == At(<< <<3, 4>>, <<4, 3>>, <<12, 5>>, <<5, 12>>, <<15, 8>>, Z(1), Z(2), <<7, 24>>, <<24, 7>>, <<5, 2>>, Z(100), <<1, 8>> >>, i)
AngAU(i) == At(<< A(3,5,4,5), A(4,5,3,5), A(12,13,5,13), A(5,13,12,13), A(15,17,8,17), A(24,25,7,25), A(7,25,24,25), A(20,29,21,29) >>, i)
LenPC(i) == At(<< Z(10), Z(100), Z(1000), Z(1), <<1, 10>>, Z(10000), <<1, 100>>, Z(4), <<5, 2>>, Z(2) >>, i)
ArcPC(i) == At(<< <<1, 10>>, <<1, 4>>, <<1, 1000>>, <<1, 2>>, <<2, 5>>, <<1, 100>>, <<1, 8>>, <<3, 100>> >>, i)
MagPC(i) == At(<< Z(0), Z(5), Z(10), Z(-5), Z(15), Z(-1), Z(-9), Z(-3), Z(-10), Z(-6), Z(-2) >>, i)
ValsD(kd, sc, n, off) == [i \in 1..n |-> CASE kd = "len" -> (IF sc = "AU" THEN LenAU(i + off) ELSE LenPC(i + off))
                                        [] kd = "ang" -> AngAU(i + off) [] kd = "arc" -> ArcPC(i + off) [] kd = "mag" -> MagPC(i + off)]
\* the kinds of each class next to each base
Kds == << <<"Distance", "len", "AU">>, <<"Parallax", "ang", "AU">>, <<"Distance", "len", "pc">>, <<"Parallax", "arc", "pc">>, <<"DistanceModulus", "mag", "pc">> >>
Three == <<"Distance", "Parallax", "DistanceModulus">>
\* every conversion from a class, and on to every other
FromForms(cls, to) == IF cls = to THEN <<"prop", "from", "fromq", "conv", "replace">>
                      ELSE IF to = "Distance" THEN <<"prop", "from", "fromq">>
                      ELSE IF to = "Parallax" /\ cls = "Distance" THEN <<"prop", "from", "fromq">> ELSE <<"prop">>
Shs == << <<4>>, <<>>, <<2, 2>>, <<1>>, <<3, 1>> >>
ConvAll(n, k) ==
  LET t == Kds[n]
      cls == t[1]
      kd == t[2]
      sc == t[3]
      sh == At(Shs, k)
      vs == ValsD(kd, sc, SizeOf(sh), k + 2)
  IN D0("conv-" \o cls \o "-" \o sc \o "-" \o ToString(k), sc, 64,
       << Ld("x", cls, kd, sh, vs, At(DUn(kd, sc), k), At(Forms, k), "eager") >>
       \o FlattenAll([j \in 1..3 |-> LET to == Three[j]
                                         fs == FromForms(cls, to)
                                     IN [i \in DOMAIN fs |-> Cv("y" \o to, "x", to, sc, fs[i], Md(sh, IF i = 1 THEN j + k ELSE IF i = 2 THEN k + 1 ELSE 1))]
                                        \o [i \in 1..3 |-> Cv("z", "y" \o to, Three[i], sc, "prop", "eager")]
                                        \o << Cv("z", "y" \o to, "Quantity", sc, "conv", "eager") >>
                                        \o FlattenAll([i \in 1..3 |-> IF Three[i] = "Distance" THEN << Cv("z", "y" \o to, "Distance", sc, "fromq", "eager") >> ELSE <<>>])
                                        \o (IF to = "DistanceModulus" THEN <<>> ELSE
                                            LET us == DUn(KdOf(to, sc, kd), sc) IN << CvU("z", "y" \o to, to, sc, At(us, k + 1), "eager"), CvU("z", "y" \o to, to, sc, At(us, k + 3), "jit") >>)])
       \o << Ix("yDistance", <<IEll>>), Ix("x", <<INew>>), Rs("yParallax", <<-1>>), Rs("yDistanceModulus", <<SizeOf(sh), 1>>) >>)
\* every way of writing each
Writing(n, k) ==
  LET t == Kds[n]
  IN D0("write-" \o t[1] \o "-" \o t[3] \o "-" \o ToString(k), t[3], 64,
       FlattenAll([f \in DOMAIN Forms |-> [i \in 1..2 |-> LET sh == At(IF Forms[f] = "list" THEN <<<<4>>, <<>>>> ELSE Shs, f + i + k) IN
          Ld("x", t[1], t[2], sh, ValsD(t[2], t[3], SizeOf(sh), f + k), At(DUn(t[2], t[3]), f + i + k), Forms[f], IF Forms[f] \in {"ctor", "fromq", "conv"} THEN At(<<"eager", "jit">>, i + k) ELSE "eager")]]))
WAngle(k) ==
  D0("write-Angle-" \o ToString(k), "AU", 64,
     FlattenAll([f \in DOMAIN Forms |-> [i \in 1..2 |-> LET sh == At(IF Forms[f] = "list" THEN <<<<4>>, <<>>>> ELSE Shs, f + i + k) IN
        Ld("x", "Angle", "ang", sh, [j \in 1..SizeOf(sh) |-> LET a == At(Az12, j + 3 * f + k) IN <<a[1], a[2], (j % 4) - 1>>],
           At(DUn("ang", "AU"), f + i + k), Forms[f], IF Forms[f] \in {"ctor", "fromq", "conv"} THEN At(<<"eager", "jit">>, i + k) ELSE "eager")]])
     \o << Ld("p", "Parallax", "ang", <<3>>, ValsD("ang", "AU", 3, k), "deg", "ctor", "eager"), Cv("y", "p", "Angle", "AU", "from", "eager"), Cv("y", "p", "Angle", "AU", "conv", "jit"),
           Cv("w", "y", "Parallax", "AU", "from", "eager"), Cv("w", "y", "Parallax", "AU", "conv", "eager"), Cv("w", "y", "Distance", "AU", "fromq", "eager"), Cv("w", "w", "Parallax", "AU", "prop", "eager") >>)
\* arithmetic
Cmp6 == <<"lt", "le", "gt", "ge", "eq", "ne">>
Cmps(a, b, k) == [i \in 1..6 |-> Da("b", Cmp6[i], <<a, b>>, IF (i + k) % 2 = 0 THEN "op" ELSE "func", IF i = 1 THEN At(Modes, k) ELSE "eager")]
ArithD(n, k) ==
  LET t == Kds[n]
      cls == t[1]
      kd == t[2]
      sc == t[3]
      us == DUn(kd, sc)
      V(o) == IF kd = "ang" THEN [i \in 1..4 |-> At(<<A(24,25,7,25), A(12,13,5,13), A(4,5,3,5), A(15,17,8,17)>>, i + o)] ELSE ValsD(kd, sc, 4, o)
      L(d, c, o, un) == Ld(d, c, kd, <<4>>, V(o), un, "ctor", "eager")
  IN D0("arith-" \o cls \o "-" \o sc \o "-" \o ToString(k), sc, 64,
       << L("x", cls, k, At(us, k)), L("y", cls, k + 1, At(us, k + 2)), L("q", "Quantity", k + 2, At(us, k + 1)),
          Ld("o", cls, kd, <<>>, << V(k + 3)[1] >>, At(us, k + 3), "ctor", "eager"), Ld("c", cls, kd, <<2, 1>>, Clip(V(k), 1, 2), At(us, k), "ctor", "eager"),
          Da("r", "add", <<"x", "y">>, "op", At(Modes, k)), Da("r", "add", <<"x", "y">>, "func", "eager"), Da("r", "add", <<"x", "q">>, "op", "eager"), Da("r", "add", <<"q", "x">>, "op", "eager"),
          Da("r", "add", <<"x", "o">>, "op", "eager"), Da("r", "add", <<"c", "y">>, "op", "eager"), Da("r", "sub", <<"x", "x">>, "op", "eager"),
          Da("r", "sub", <<"x", "y">>, "op", "eager"), Da("r", "sub", <<"q", "y">>, "op", "eager"), Da("r", "neg", <<"x">>, "op", "eager"), Da("r", "neg", <<"x">>, "func", "eager"), Da("r", "abs", <<"x">>, "op", "eager"),
          Dm("r", "mul", "x", Z(2), "int", "R"), Dm("r", "mul", "x", Z(2), "int", "L"), Dm("r", "mul", "x", Z(-1), "float", "L"), Dm("d", "mul", "y", Z(2), "jnp", "R"),
          Da("r", "sum", <<"x">>, "op", At(<<"eager", "jit">>, k)), Da("r", "max", <<"x">>, "op", "eager"), Da("r", "min", <<"y">>, "op", "eager"), Da("r", "stack", <<"x", "y">>, "op", "eager") >>
       \o (IF kd = "ang" THEN <<>> ELSE << Dm("r", "div", "x", Z(2), "int", "R"), Dm("r", "div", "x", <<5, 2>>, "float", "R"), Dm("r", "mul", "x", <<3, 2>>, "np", "R"), Da("r", "mean", <<"y">>, "op", "eager") >>)
       \o Cmps("x", "y", k) \o Cmps("y", "q", k + 1) \o Cmps("x", "x", k + 1) \o << Da("b", "lt", <<"x", "o">>, "op", "eager"), Da("b", "ge", <<"c", "y">>, "op", "eager") >>
       \o << Ix("x", <<IInt(-1)>>), Ix("x", <<ISl(NONE, NONE, -2)>>), Ix("c", <<IInt(1)>>), Ix("y", <<IMask(<<1, 0, 1, 1>>)>>), Rs("x", <<2, 2>>) >>
       \o (IF kd = "len" THEN
            << Dp("r", "x", 2, At(Modes, k)), Dp("r", "y", 3, "eager"), Dp("r", "x", -1, "eager"), Dp("r", "x", -2, "eager"), Dp("r", "x", 0, "eager"),
               Ld("s", cls, kd, <<5>>, <<Z(4), <<9, 4>>, <<1, 25>>, Z(49), Z(2)>>, At(<<"AU", "pc">>, IF sc = "AU" THEN 1 ELSE 2), "ctor", "eager"),
               Da("r", "sqrt", <<"s">>, "op", "eager"), Da("r", "sqrt", <<"s">>, "func", At(Modes, k)), 
               Ld("s", cls, kd, <<4>>, <<Z(8), <<27, 8>>, <<1, 64>>, Z(5)>>, At(us, k), "ctor", "eager"), Da("r", "cbrt", <<"s">>, "op", At(Modes, k + 1)), Da("r", "sqrt", <<"s">>, "func", "eager"),
               Da("r", "dot", <<"x", "y">>, "op", "eager"), Da("r", "dot", <<"x", "y">>, "func", "jit"), 
               [op |-> "litq", d |-> "t", shape |-> <<>>, vals |-> << <<5, 2>> >>, kind |-> "time", u |-> "yr"],
               Da("r", "mulq", <<"x", "t">>, "op", "eager"), Da("r", "divq", <<"y", "t">>, "op", "eager"), Da("r", "divq", <<"y", "t">>, "func", "eager") >> ELSE <<>>)
       \o (IF kd = "ang" THEN << Da("r", "tan", <<"x">>, "op", "eager"), Da("r", "tan", <<"y">>, "func", "jit") >> ELSE <<>>)
       \o (IF kd = "len" THEN << Cv("z", "d", "Parallax", sc, "prop", "eager") >>
           ELSE IF kd \in {"arc", "mag"} THEN << Cv("z", "d", "Distance", sc, "prop", "eager") >> ELSE <<>>))
AngV(k, o) == [i \in 1..6 |-> LET a == At(Az12, i + 5 * o + k) IN <<a[1], a[2], ((i + k + o) % 4) - 1>>]
ArithA(k) ==
  LET us == DUn("ang", "AU")
      L(d, c, o, un) == Ld(d, c, "ang", <<6>>, AngV(k, o), un, "ctor", "eager")
      ax == [i \in 1..6 |-> LET a == At(Axes4, i + k) IN <<a[1], a[2], (i % 3) - 1>>]
  IN D0("arith-Angle-" \o ToString(k), "AU", 64,
       << L("x", "Angle", 0, At(us, k)), L("y", "Angle", 1, At(us, k + 1)), L("q", "Quantity", 2, At(us, k + 2)), Ld("ax", "Angle", "ang", <<6>>, ax, At(us, k), "ctor", "eager"),
          Da("r", "add", <<"x", "y">>, "op", At(Modes, k)), Da("r", "add", <<"x", "q">>, "op", "eager"), Da("r", "add", <<"q", "x">>, "func", "eager"), Da("r", "sub", <<"x", "y">>, "op", "eager"),
          Da("r", "sub", <<"q", "x">>, "op", "eager"), Da("r", "neg", <<"x">>, "op", "eager"), Da("r", "abs", <<"x">>, "op", "eager"), Dm("r", "mul", "x", Z(3), "int", "L"), Dm("r", "mul", "x", Z(-2), "float", "R"),
          Da("r", "sum", <<"ax">>, "op", "eager"), Da("r", "max", <<"x">>, "op", "eager"), Da("r", "min", <<"x">>, "op", "jit"), Da("r", "stack", <<"x", "y">>, "op", "eager"),
          Da("r", "sin", <<"x">>, "op", At(Modes, k)), Da("r", "cos", <<"x">>, "op", At(Modes, k + 1)), Da("r", "sin", <<"y">>, "func", "eager"), Da("r", "cos", <<"y">>, "func", "eager"),
          Dp("r", "ax", 2, "eager"), Dp("r", "ax", 3, "jit"), Da("r", "sqrt", <<"ax">>, "func", "eager"), Da("r", "sqrt", <<"ax">>, "op", "eager"), Da("r", "cbrt", <<"ax">>, "op", "eager"), Da("r", "dot", <<"ax", "ax">>, "func", "eager"),
          Da("r", "dot", <<"ax", "ax">>, "op", "eager"),
          [op |-> "litq", d |-> "t", shape |-> <<>>, vals |-> << <<5, 2>> >>, kind |-> "time", u |-> "yr"],
          Da("r", "divq", <<"ax", "t">>, "op", "eager"), Da("r", "mulq", <<"ax", "t">>, "op", "eager"), 
          CvU("z", "x", "Angle", "AU", At(us, k + 3), "eager"), CvU("z", "y", "Angle", "AU", At(us, k + 4), "jit"), Da("r", "add", <<"z", "x">>, "op", "eager"),
          Cv("z", "x", "Quantity", "AU", "conv", "eager"), Cv("z", "q", "Angle", "AU", "conv", "eager"), Cv("z", "x", "Angle", "AU", "from", "eager"),
          Ix("x", <<IInt(-1)>>), Ix("x", <<ISl(NONE, NONE, -2)>>), Rs("x", <<3, 2>>) >>
       \o Cmps("x", "y", k) \o Cmps("y", "q", k + 1) \o Cmps("x", "x", k))
\* what is refused
BadD(why, r) == [bad |-> why] @@ r
Wrong(cls, un, i) == [f \in DOMAIN Forms |-> BadD("dim", Ld("e", cls, "len", IF f % 2 = 0 THEN <<2>> ELSE <<>>, IF f % 2 = 0 THEN <<R1, Z(2)>> ELSE <<R1>>, un, Forms[f], "eager"))]
\* a length is a distance, and an angle or a magnitude may be read as one, by from_ alone
WrongC(cls, un, i) == SelectSeq(Wrong(cls, un, i), LAMBDA s : s.form \in {"ctor", "npctor", "from2", "list", "conv"})
RefuseD == D0("refuse", "AU", 64,
  Wrong("Distance", "s", 1) \o Wrong("Distance", "km2", 1) \o Wrong("Distance", "", 1) \o Wrong("Distance", "km/s", 2) \o WrongC("Distance", "rad", 1) \o WrongC("Distance", "mag", 1)
  \o Wrong("Parallax", "s", 1) \o WrongC("Parallax", "km", 1) \o Wrong("Parallax", "", 1) \o Wrong("Parallax", "mag", 2) \o Wrong("Parallax", "rad2", 2)
  \o Wrong("DistanceModulus", "km", 1) \o Wrong("DistanceModulus", "", 1) \o Wrong("DistanceModulus", "rad", 2) \o Wrong("DistanceModulus", "dex", 2)
  \o Wrong("Angle", "km", 1) \o Wrong("Angle", "", 1) \o Wrong("Angle", "s", 1) \o Wrong("Angle", "rad/s", 2) \o Wrong("Angle", "mag", 2))
NegPar == D0("negative", "AU", 64,
  FlattenAll([f \in DOMAIN Forms |->
     << Ld("x", "Parallax", "ang", <<>>, << AngNeg(A(4,5,3,5)) >>, At(DUn("ang", "AU"), f), Forms[f], "eager"),
        Ld("x", "Parallax", "ang", <<3>>, << A(4,5,3,5), A(3,5,4,5), AngNeg(A(12,13,5,13)) >>, At(DUn("ang", "AU"), f), Forms[f], "eager"),
        Ld("x", "Parallax", "ang", <<3>>, << A(4,5,3,5), AngZero, A(12,13,5,13) >>, At(DUn("ang", "AU"), f), Forms[f], "eager") >>])
  \o << [nocheck |-> TRUE] @@ Ld("x", "Parallax", "ang", <<3>>, << A(4,5,3,5), A(3,5,4,5), AngNeg(A(12,13,5,13)) >>, "deg", "ctor", "eager"),
        Cv("y", "x", "Distance", "AU", "prop", "eager"), Cv("y", "x", "Distance", "AU", "from", "jit"), Cv("z", "x", "Quantity", "AU", "conv", "eager"),
        [nocheck |-> TRUE] @@ Ld("x", "Parallax", "ang", <<>>, << AngNeg(A(4,5,3,5)) >>, "mas", "npctor", "eager"), Cv("y", "x", "Distance", "AU", "prop", "eager"),
        Ld("x", "Distance", "len", <<2>>, << Z(-3), Z(2) >>, "AU", "ctor", "eager"), Da("r", "abs", <<"x">>, "op", "eager") >>)
\* a radius may be given in any of them
RCls == << <<"RadialPos", "r">>, <<"PolarPos", "r">>, <<"SphericalPos", "r">>, <<"MathSphericalPos", "r">>, <<"LonLatSphericalPos", "distance">> >>
Hows == <<"Parallax", "parallax", "DistanceModulus", "modulus", "Distance">>
TargetsD(c) == IF c = "RadialPos" THEN <<"CartesianPos1D">> ELSE IF c = "PolarPos" THEN <<"CartesianPos2D">>
              ELSE <<"CartesianPos3D", "CylindricalPos", "SphericalPos", "LonLatSphericalPos", "MathSphericalPos">>
UL2 == [len |-> <<"lyr">>, ang |-> <<"rad">>, time |-> "yr"]
RadialIn(n, h) ==
  LET c == RCls[n][1]
      l == LitB("x", c, <<3>>, << <<3>> >>, n + 2 * h, [len |-> IF h % 2 = 0 THEN <<"AU">> ELSE <<"pc">>, ang |-> <<"deg", "rad">>, time |-> "yr"])
      ts == TargetsD(c)
  IN [id |-> "radius-" \o c \o "-" \o Hows[h], base |-> IF h % 2 = 0 THEN SAU ELSE SPC, mag |-> 0, prec |-> 64, 
      steps |-> << IF h % 2 = 0 /\ n > 2 THEN [how |-> (RCls[n][2] :> Hows[h]), ctor |-> "from_kw"] @@ l ELSE [how |-> (RCls[n][2] :> Hows[h])] @@ l,
                  [l EXCEPT !.d = "y0"], LitB("y1", c, <<3>>, << <<3>> >>, n + 2 * h + 1, UL2) >>
       \o FlattenAll([j \in DOMAIN ts |-> << [op |-> "rep", d |-> "y", a |-> <<"x">>, cls |-> ts[j], kw |-> <<>>, mode |-> At(Modes, h + j)] >>])
       \o << [op |-> "rep", d |-> "z", a |-> <<"y">>, cls |-> c, kw |-> <<>>, mode |-> "eager"],
             [op |-> "arr", d |-> "i", f |-> "index", a |-> <<"x">>, idx |-> <<IInt(1)>>, mode |-> "eager"],
             [op |-> "uconv", d |-> "i", a |-> <<"x">>, how |-> "usys", sys |-> "galactic", want |-> WantUnits([how |-> "usys", sys |-> "galactic"], [k |-> "pos", cls |-> c]), mode |-> "eager"],
             [op |-> "eq", d |-> "e", f |-> "eq", a |-> <<"x", "y1">>, form |-> "op", mode |-> "eager"],
             [op |-> "arith", d |-> "s", f |-> "neg", a |-> <<"x">>, form |-> "op", mode |-> "eager"],
             [op |-> "arith", d |-> "s", f |-> IF c = "RadialPos" THEN "add" ELSE "sub", a |-> <<"x", "y0">>, form |-> "op", mode |-> "eager"],
             [op |-> "arith", d |-> "s", f |-> "norm", a |-> <<"x">>, form |-> "op", mode |-> "eager"],
             [op |-> "arith", d |-> "s", f |-> "add", a |-> <<"x", "x">>, form |-> "op", mode |-> "eager"],
             [op |-> "arith", d |-> "s", f |-> "mul", a |-> <<"x">>, s |-> Z(2), num |-> "int", form |-> "op", mode |-> "eager"] >>]
F32D(n) ==
  LET t == Kds[n]
  IN D0("f32-" \o t[1] \o "-" \o t[3], t[3], 32,
       << Ld("x", t[1], t[2], <<3>>, ValsD(t[2], t[3], 3, 0), DUn(t[2], t[3])[1], "ctor", "eager"), Ld("y", t[1], t[2], <<3>>, ValsD(t[2], t[3], 3, 0), DUn(t[2], t[3])[1], "fromq", "eager"),
          Cv("z", "x", "Distance", t[3], "prop", "eager"), Da("r", "add", <<"x", "y">>, "op", "eager"), Da("b", "lt", <<"x", "y">>, "op", "eager") >>)
KD == IF Thorough THEN [i \in 1..20 |-> i] ELSE << SEED, SEED + 3 >>
Scenarios == FlattenAll([j \in DOMAIN KD |-> [n \in DOMAIN Kds |-> ConvAll(n, KD[j])]]) \o FlattenAll([j \in DOMAIN KD |-> [n \in DOMAIN Kds |-> Writing(n, KD[j])]])
  \o [j \in DOMAIN KD |-> WAngle(KD[j])] \o FlattenAll([j \in DOMAIN KD |-> [n \in DOMAIN Kds |-> ArithD(n, KD[j])]])
  \o [j \in DOMAIN KD |-> ArithA(KD[j])] \o << RefuseD, NegPar >>
  \o FlattenAll([n \in DOMAIN RCls |-> [h \in 1..5 |-> RadialIn(n, h)]]) \o [n \in DOMAIN Kds |-> F32D(n)]
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
