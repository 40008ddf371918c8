------------------------------- MODULE GenCtor -------------------------------
(* Every equivalent way of writing the same vector, and what is refused.     *)
EXTENDS Shapes, IOUtils
Thorough == IOEnv.TIER = "thorough"
SEED == atoi(IOEnv.SEED)
S0(id, i, prec, steps) == [id |-> id, base |-> BaseFor(i), mag |-> 0, prec |-> prec, steps |-> steps]
\* Cartesian classes take one array with the components on its last axis
Carts == << <<"CartesianPos1D", 1, "len">>, <<"CartesianPos2D", 2, "len">>, <<"CartesianPos3D", 3, "len">>,
            <<"CartesianVel1D", 1, "len/t">>, <<"CartesianVel2D", 2, "len/t">>, <<"CartesianVel3D", 3, "len/t">>,
            <<"CartesianAcc1D", 1, "len/t2">>, <<"CartesianAcc2D", 2, "len/t2">>, <<"CartesianAcc3D", 3, "len/t2">>,
            <<"AbstractPos3D", 3, "len">>, <<"AbstractVel3D", 3, "len/t">>, <<"AbstractAcc3D", 3, "len/t2">>,
            <<"CartesianPosND", 4, "len">>, <<"CartesianVelND", 2, "len/t">>, <<"CartesianAccND", 3, "len/t2">>,
            <<"RadialPos", 1, "len">>, <<"RadialVel", 1, "len/t">>, <<"RadialAcc", 1, "len/t2">> >>
Val(i, e, j) == Rn(7 * e + 3 * j + 2 * i, ((e + j + i) % 3) + 1)         \* positive: also a radius
Rows(i, m, n) == [e \in 1..m |-> [j \in 1..n |-> Val(i, e, j)]]
Units(kd) == CASE kd = "len" -> <<"km", "kpc", "m", "AU">> [] kd = "len/t" -> <<"km / s", "kpc / Myr", "m / h", "AU / yr">>
               [] kd = "len/t2" -> <<"km / s2", "kpc / Myr2", "m / h2", "pc / yr2">>
Ct(how, c, i, shape, n, kd, mode) ==
  [op |-> "ctor", d |-> "x", cls |-> c, form |-> how, shape |-> shape, comps |-> Rows(i, SizeOf(shape), n), kind |-> kd,
   unit |-> At(Units(kd), i), unit_as |-> IF i % 2 = 0 THEN "str" ELSE "unit", mode |-> mode]
ShapesC == << <<>>, <<3>>, <<2, 2>>, <<1>>, <<4, 1>> >>
Arrays(t, i) ==
  LET c == t[1]
      n == t[2]
      kd == t[3]
      hows == <<"list", "np", "jnp", "q">>
  IN S0("arr-" \o c \o ToString(i), i, 64,
       FlattenAll([s \in DOMAIN ShapesC |-> [h \in 1..4 |-> Ct(hows[h], c, i + s + h, ShapesC[s], n, kd, "eager")]])
       \o << Ct("q", c, i, <<2>>, n, kd, "jit"), Ct("q", c, i + 1, <<>>, n, kd, "jit") >>)
Arrays32(t, i) ==
  S0("arr32-" \o t[1], i, 32, << Ct("jnp", t[1], i, <<3>>, t[2], t[3], "eager"), Ct("q", t[1], i, <<2>>, t[2], t[3], "eager"), Ct("list", t[1], i, <<>>, t[2], t[3], "eager") >>)
\* wrong numbers of components, wrong dimensions
Sized == << <<"CartesianPos2D", 2, "len">>, <<"CartesianPos3D", 3, "len">>, <<"CartesianVel2D", 2, "len/t">>, <<"CartesianVel3D", 3, "len/t">>,
            <<"CartesianAcc2D", 2, "len/t2">>, <<"CartesianAcc3D", 3, "len/t2">>,
            <<"AbstractPos3D", 3, "len">>, <<"AbstractVel3D", 3, "len/t">>, <<"AbstractAcc3D", 3, "len/t2">> >>
OtherKind(kd) == CASE kd = "len" -> "len/t" [] kd = "len/t" -> "len/t2" [] OTHER -> "len"
Bad(why, r) == [bad |-> why] @@ r
Refuse(t, i) ==
  LET c == t[1]
      n == t[2]
      kd == t[3]
      hows == <<"list", "np", "jnp", "q">>
  IN S0("bad-" \o c, i, 64,
       FlattenAll([h \in 1..4 |->
         << Bad("size", Ct(hows[h], c, i + h, <<3>>, n + 1, kd, "eager")), Bad("size", Ct(hows[h], c, i + h, <<>>, n - 1, kd, "eager")),
            Bad("size", Ct(hows[h], c, i + h, <<n>>, n + 2, kd, "eager")),
            Bad("dim", Ct(hows[h], c, i + h, <<2>>, n, OtherKind(kd), "eager")) >>]))
DimOnly == << <<"CartesianPos1D", 1, "len">>, <<"CartesianVel1D", 1, "len/t">>, <<"CartesianAcc1D", 1, "len/t2">>,
              <<"CartesianPosND", 3, "len">>, <<"CartesianVelND", 3, "len/t">>, <<"CartesianAccND", 3, "len/t2">> >>
RefuseDim(t, i) == S0("baddim-" \o t[1], i, 64, [h \in 1..4 |-> Bad("dim", Ct(<<"list", "np", "jnp", "q">>[h], t[1], i + h, <<2>>, t[2], OtherKind(t[3]), "eager"))])
\* components by name, in any order, and from another vector
CtL(how, c, shape, bs, salt, un, mode, rev) ==
  LET l == LitAny("x", c, shape, bs, salt, un)
  IN [form |-> how, mode |-> mode, rev |-> rev] @@ [l EXCEPT !.op = "ctor"]
Comps(c, i) ==
  LET sh == At(ShapesC, i)
      bs == Spread(c, sh)
  IN S0("comp-" \o c, i, 64,
       << CtL("map", c, sh, bs, i, U(i), "eager", FALSE), CtL("map", c, sh, bs, i + 1, U(i + 1), "eager", TRUE),
          CtL("proxy", c, sh, bs, i + 2, U(i), "eager", TRUE), CtL("kw", c, sh, bs, i, U(i + 2), "eager", FALSE),
          CtL("kw", c, sh, bs, i + 1, U(i + 2), "eager", TRUE), CtL("vec", c, sh, bs, i + 3, U(i + 3), "eager", FALSE),
          CtL("map", c, <<2>>, << <<2>> >>, i + 1, U(i), "jit", TRUE), CtL("kw", c, <<2>>, << <<2>> >>, i, U(i), "jit", FALSE),
          CtL("map", c, <<2, 3>>, Spread(c, <<2, 3>>), i + 4, U(i + 1), "eager", TRUE), CtL("vec", c, <<2, 3>>, Spread(c, <<2, 3>>), i + 4, U(i + 1), "jit", FALSE) >>)
\* one component of another dimension, or a plain number
Spoil(c, i, j, w, how) == [spoil |-> j, with |-> w] @@ Bad("dim", CtL(how, c, At(<< <<>>, <<2>> >>, i + j), At(<< << <<>> >>, << <<2>> >> >>, i + j), i + j, U(i + j), "eager", FALSE))
ScSpoil == FlattenAll([i \in DOMAIN AllCls |-> IF AllCls[i] \in {"CartesianPosND", "CartesianVelND", "CartesianAccND"} THEN <<>> ELSE
   LET c == AllCls[i]
       d == Len(Kinds(IF IsPosCls(c) THEN c ELSE PosOfDif(c)))
   IN << S0("spoil-" \o c, i, 64, FlattenAll([j \in 1..d |-> [w \in 1..3 |-> Spoil(c, i, j, <<"time", "mass", "plain">>[w], At(<<"kw", "map">>, i + j + w))]])) >>])
\* from a vector of another class: refused, not handed back unchanged; the abstract classes take any of theirs
Into(c, to, i, bad) == LET r == [to |-> to] @@ CtL("into", c, <<>>, << <<>> >>, i, U(i), "eager", FALSE) IN IF bad THEN Bad("class", r) ELSE r
Fam(c) == IF IsPosCls(c) THEN AllPos ELSE IF IsAccCls(c) THEN AllAcc ELSE AllVel
AbsOf(c) == IF IsPosCls(c) THEN "AbstractPos" ELSE IF IsAccCls(c) THEN "AbstractAcc" ELSE "AbstractVel"
ScInto == FlattenAll([i \in DOMAIN AllCls |-> IF AllCls[i] = "TwoSpherePos" THEN <<>> ELSE
   LET c == AllCls[i]
       f == Fam(c)
       abs == IF DimOf(IF IsPosCls(c) THEN c ELSE PosOfDif(c)) = 3 THEN << Into(c, AbsOf(c) \o "3D", i, FALSE) >> ELSE <<>>
   IN << S0("into-" \o c, i, 64, [k \in DOMAIN f |-> Into(c, f[k], i + k, f[k] # c)] \o abs) >>])
\* a bare quantity says nothing of curvilinear components
Curv == <<"CylindricalPos", "SphericalPos", "LonLatSphericalPos", "MathSphericalPos", "ProlateSpheroidalPos", "PolarPos">>
ScCurv == FlattenAll([i \in DOMAIN Curv |-> LET n == DimOf(Curv[i]) IN
   << S0("curv-" \o Curv[i], i, 64, << Bad("class", Ct("q", Curv[i], i, <<>>, n, "len", "eager")), Bad("class", Ct("q", Curv[i], i, <<2>>, n, "len", "eager")), Bad("class", Ct("list", Curv[i], i, <<>>, n, "len", "eager")) >>),
      S0("curv-" \o VelOfPos(Curv[i]), i, 64, << Bad("class", Ct("q", VelOfPos(Curv[i]), i, <<>>, n, "len/t", "eager")), Bad("class", Ct("np", VelOfPos(Curv[i]), i, <<2>>, n, "len/t", "eager")) >>),
      S0("curv-" \o AccOfPos(Curv[i]), i, 64, << Bad("class", Ct("q", AccOfPos(Curv[i]), i, <<>>, n, "len/t2", "eager")), Bad("class", Ct("jnp", AccOfPos(Curv[i]), i, <<2>>, n, "len/t2", "eager")) >>) >>])
Scenarios == ScSpoil \o ScInto \o ScCurv \o FlattenAll([r \in 1..(IF Thorough THEN 5 ELSE 1) |-> [i \in DOMAIN Carts |-> Arrays(Carts[i], i + 7 * (r + SEED - 2))]])
             \o [i \in DOMAIN Carts |-> Arrays32(Carts[i], i)]
             \o [i \in DOMAIN Sized |-> Refuse(Sized[i], i)] \o [i \in DOMAIN DimOnly |-> RefuseDim(DimOnly[i], i)]
             \o [i \in DOMAIN AllCls |-> Comps(AllCls[i], i)]
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
