------------------------------- MODULE GenUnit -------------------------------
(* Unit conversions of every class through every way of asking, and the      *)
(* independence of every operation from the units of its inputs.            *)
EXTENDS Shapes, IOUtils
Thorough == IOEnv.TIER = "thorough"
SEED == atoi(IOEnv.SEED)
S0(id, i, prec, steps) == [id |-> id, base |-> BaseFor(i), mag |-> 0, prec |-> prec, steps |-> steps]
Cls == AllCls \o AllND
Systems == <<"galactic", "si", "cgs", "solarsystem">>
Maps == << [length |-> "pc", area |-> "pc2", angle |-> "deg", speed |-> "km / s", diffusivity |-> "km2 / s", acceleration |-> "m / s2",
            nothing |-> "kg"],
           [length |-> "cm", area |-> "AU2", angle |-> "arcmin", speed |-> "pc / yr", diffusivity |-> "pc2 / yr",
            acceleration |-> "kpc / Myr2", nothing |-> "kg"] >>
\* mappings are written out so that the names with blanks can be JSON keys
MapFn(k) == LET m == Maps[k] IN
  ("length" :> m.length) @@ ("area" :> m.area) @@ ("angle" :> m.angle) @@ ("speed" :> m.speed) @@ ("diffusivity" :> m.diffusivity)
  @@ ("acceleration" :> m.acceleration) @@ ("mass" :> "kg")
  @@ ("angular speed" :> (IF k = 1 THEN "deg / yr" ELSE "mas / yr")) @@ ("angular acceleration" :> (IF k = 1 THEN "deg / s2" ELSE "rad / yr2"))
  @@ ("specific energy" :> (IF k = 1 THEN "km2 / s2" ELSE "AU2 / yr2"))
KOf(c) == IF IsPosCls(c) THEN "pos" ELSE IF IsAccCls(c) THEN "acc" ELSE "vel"
Stub(c) == [cls |-> c, k |-> KOf(c)]
Uc(d, a, c, form, mode, r) == LET st == [op |-> "uconv", d |-> d, a |-> <<a>>, form |-> form, mode |-> mode] @@ r
                           IN [want |-> WantUnits(st, Stub(c))] @@ st
\* the cgs system of the units library cannot name every dimension
SysFor(c, k) == LET s == At(Systems, k) IN IF s = "cgs" /\ c \in {"ProlateSpheroidalVel", "ProlateSpheroidalAcc"} THEN "si" ELSE s
Usys(s) == [how |-> "usys", sys |-> s]
UMap(k, how) == [how |-> how, map |-> MapFn(k)]
UCon == [how |-> "consistent"]
ShapesU == << <<3>>, <<>>, <<2, 3>> >>
Conv(c, ci) ==
  LET sh == At(ShapesU, ci)
      f(k) == IF (ci + k) % 2 = 0 THEN "meth" ELSE "func"
  IN S0("conv-" \o c, ci, 64,
     << LitAny("x", c, sh, IF c \in {"CartesianPosND", "CartesianVelND", "CartesianAccND"} THEN <<sh>> ELSE Spread(c, sh), ci, U(ci)) >>
     \o [k \in 1..4 |-> Uc("y", "x", c, f(k), "eager", Usys(SysFor(c, k)))]
     \o << Uc("y", "x", c, f(1), "eager", UMap(1, "map")), Uc("z", "y", c, f(0), "eager", UMap(2, "mapdim")),
           Uc("w", "z", c, "meth", "eager", UCon), Uc("w", "x", c, f(3), "eager", UCon),
           Uc("v", "w", c, "meth", "jit", Usys(SysFor(c, ci))), Uc("v", "x", c, "func", "jit", UMap(2, "map")),
           LitAny("x", c, <<2>>, <<<<2>>>>, ci + 3, U(ci + 2)), Uc("w", "x", c, "func", "eager", UCon), Uc("v", "x", c, "meth", "eager", Usys(SysFor(c, ci + 1))) >>)
Conv32(c, ci) ==
  S0("conv32-" \o c, 1, 32,
     << LitAny("x", c, <<2>>, <<<<2>>>>, ci + 1, U(1)), Uc("y", "x", c, "meth", "eager", Usys("si")), Uc("z", "y", c, "func", "eager", UMap(1, "map")),
        Uc("w", "x", c, "func", "eager", UCon) >>)

\* --- every operation, its inputs first converted to other units ---
Rep(d, a, t) == [op |-> "rep", d |-> d, a |-> <<a>>, cls |-> t, mode |-> "eager"]
Ar(d, f, a) == [op |-> "arith", d |-> d, f |-> f, a |-> a, form |-> "op", mode |-> "eager"]
Sc(d, a, s) == [op |-> "arith", d |-> d, f |-> "mul", a |-> <<a>>, s |-> s, side |-> "L", num |-> "float", form |-> "op", mode |-> "eager"]
P3 == <<"CartesianPos3D", "CylindricalPos", "SphericalPos", "LonLatSphericalPos", "MathSphericalPos">>
Ways(k, c) == LET f == IF k % 2 = 0 THEN "meth" ELSE "func"
              IN CASE k % 7 < 4 -> Uc("y", "x", c, f, "eager", Usys(Systems[(k % 7) + 1]))
                   [] k % 7 \in {4, 5} -> Uc("y", "x", c, f, "eager", UMap((k % 7) - 3, "map"))
                   [] OTHER -> Uc("y", "x", c, f, "eager", UCon)
\* the second operand in its own units
Ops(i) ==
  LET c == At(P3, i)
      t == At(P3, i + 2)
  IN << LitOf("x", c, Clip(Pts3Reg0, i, i + 3), R1, U(i)), Ways(i, c),
        LitOf("z", t, Clip(Pts3Reg0, i + 4, i + 7), R1, U(i + 3)) >>
     \o [k \in 1..5 |-> Rep("r", "y", P3[k])]
     \o << Ar("n", "norm", <<"y">>), Ar("s", "add", <<"y", "z">>), Ar("s", "sub", <<"z", "y">>), Ar("s", "neg", <<"y">>), Sc("m", "y", <<-3, 2>>),
           Ways(i + 3, c), Rep("r", "y", t), Ar("e", "sub", <<"y", "y">>) >>
ScOps == [i \in 1..(IF Thorough THEN 40 ELSE 14) |-> S0("ops" \o ToString(i), i + SEED - 1, 64, Ops(i))]
\* velocities and accelerations at positions
V3 == <<"CartesianVel3D", "CylindricalVel", "SphericalVel", "LonLatSphericalVel", "MathSphericalVel">>
A3 == <<"CartesianAcc3D", "CylindricalAcc", "SphericalAcc", "LonLatSphericalAcc", "MathSphericalAcc">>
DR(k, m) == [e \in 1..m |-> [j \in 1..3 |-> Rn(5 * e - 3 * j + k, ((e + 2 * j + k) % 4) + 1)]]
LitD(d, c, k, un) == [op |-> "lit", d |-> d, cls |-> c, shape |-> <<3>>, comps |-> DR(k, 3), u |-> un]
WaysD(k, d, a, c) == [Ways(k, c) EXCEPT !.d = d, !.a = <<a>>]
RepD(d, t, a) == [op |-> "repd", d |-> d, a |-> a, cls |-> t, mode |-> "eager"]
\* a regular point for the class
VOps(i) ==
  LET pc == At(P3, i)
      vc == At(V3, i)
      ac == At(A3, i + 1)
      tc == At(V3, i + 1 + (i % 3))
  IN << LitOf("p", pc, Clip(Pts3Reg0, i, i + 2), R1, U(i)), WaysD(i, "p2", "p", pc),
        LitD("v", vc, i, U(i + 1)), WaysD(i + 3, "v2", "v", vc), RepD("w", tc, <<"v2", "p2">>), RepD("w2", "CartesianVel3D", <<"v2", "p">>),
        LitD("a", ac, i + 1, U(i + 4)), WaysD(i + 5, "a2", "a", ac), RepD("b", At(A3, i + 3), <<"a2", "w", "p2">>) >>
ScV == [i \in 1..(IF Thorough THEN 30 ELSE 10) |-> S0("vops" \o ToString(i), i + SEED - 1, 64, VOps(i))]
Cls32 == SelectSeq(Cls, LAMBDA c : ~(c \in {"SphericalPos", "ProlateSpheroidalPos"}))
Scenarios == [i \in DOMAIN Cls |-> Conv(Cls[i], i)] \o [i \in DOMAIN Cls32 |-> Conv32(Cls32[i], i)] \o ScOps \o ScV
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
