------------------------------- MODULE OpsLib -------------------------------
(* Operator and argument literals shared by the operator scenarios.          *)
EXTENDS Shapes, IOUtils
Thorough == IOEnv.TIER = "thorough"
SEED == atoi(IOEnv.SEED)
LYR == [len |-> "lyr", time |-> "yr"]
S0(id, base, mag, prec, steps) == [id |-> id, base |-> base, mag |-> mag, prec |-> prec, steps |-> steps]
LUnits == << [len |-> <<"lyr">>, ang |-> <<"rad">>, time |-> "yr", spd |-> "lyr/yr"],
             [len |-> <<"pc", "lyr">>, ang |-> <<"deg">>, time |-> "Myr", spd |-> "km/s"],
             [len |-> <<"AU">>, ang |-> <<"deg", "rad">>, time |-> "s", spd |-> "AU/yr"],
             [len |-> <<"kpc">>, ang |-> <<"hourangle">>, time |-> "kyr", spd |-> "pc/yr"] >>
UL(i) == At(LUnits, i)
UV(i) == [len |-> <<UL(i).spd>>, spd |-> UL(i).spd, ang |-> UL(i).ang, time |-> UL(i).time]
Len1(i) == UL(i).len[1]

a1 == A(3,5,4,5)
a2 == A(-4,5,3,5)
a3 == A(4,5,-3,5)
Mats == << RotZ(a1), RotX(Ang90), RotY(a2), RotZ(Ang180), MMul(RotX(Ang90), RotY(a3)), RotX(a3) >>
RotForms == <<"np", "q", "scipy", "copy", "map", "jnp">>
MkRot(d, M, form) == [op |-> "mkop", d |-> d, t |-> "rot", form |-> form, M |-> M]
MkEuler(d, axes, angs, intr, un) ==
  [op |-> "mkop", d |-> d, t |-> "rot", form |-> "euler", axes |-> axes, angs |-> angs, intrinsic |-> intr, u |-> un, angle |-> intr]
MkShift(d, t, vals, form, un) == [op |-> "mkop", d |-> d, t |-> t, form |-> form, vals |-> vals, u |-> un]
MkReg(d, t, a, form) == [op |-> "mkop", d |-> d, t |-> t, form |-> form, a |-> <<a>>]
MkId(d) == [op |-> "mkop", d |-> d, t |-> "id"]
MkGal(d, parts, a, form) == [op |-> "mkop", d |-> d, t |-> "gal", parts |-> parts, a |-> a, form |-> form]
MkPipe(d, a, form) == [op |-> "mkop", d |-> d, t |-> "pipe", a |-> a, form |-> form]
MkOr(d, x, y) == [op |-> "mkop", d |-> d, t |-> "or", a |-> <<x, y>>]
Mk1(d, t, x) == [op |-> "mkop", d |-> d, t |-> t, a |-> <<x>>]
MkItem(d, x, i, form) == [op |-> "mkop", d |-> d, t |-> "item", a |-> <<x>>, i |-> i, form |-> form]
MkSlice(d, x, i) == [op |-> "mkop", d |-> d, t |-> "slice", a |-> <<x>>, i |-> i]
App(d, a, mode) == [op |-> "apply", d |-> d, a |-> a, mode |-> mode]
LitT(d, shape, vals, un) == [op |-> "litq", d |-> d, shape |-> shape, vals |-> vals, kind |-> "time", u |-> un]
LitL(d, shape, vals, un) == [op |-> "litq", d |-> d, shape |-> shape, vals |-> vals, kind |-> "len", u |-> un]
LitFv(d, t, q) == [op |-> "litfv", d |-> d, a |-> <<t, q>>]
LitFvC(d, t, q, c, cu, form) == [op |-> "litfv", d |-> d, a |-> <<t, q>>, c |-> c, cu |-> cu, form |-> form]
LitV(d, cls, rows, shape, un) == [op |-> "lit", d |-> d, cls |-> cls, shape |-> shape, comps |-> rows, u |-> un]
ZV(x, y, z) == <<Z(x), Z(y), Z(z)>>

\* the elementary operators of a scenario, in registers R1 R2 S1 S2 G1 B1 V1 I (units and forms vary with i)
Pool(i) == <<
  LET f == At(RotForms, i) IN IF f = "jnp" THEN MkEuler("R1", <<"z">>, <<a1>>, i % 2, At(<<"rad", "deg">>, i)) ELSE MkRot("R1", At(Mats, i), f),
  IF i % 2 = 0 THEN MkEuler("R2", <<"x", "z", "y">>, <<Ang90, a1, Ang270>>, (i \div 2) % 2, At(<<"deg", "rad">>, i))
  ELSE MkEuler("R2", <<"z", "x", "z">>, <<a2, Ang90, Ang180>>, (i \div 2) % 2, At(<<"rad", "deg">>, i)),
  MkShift("S1", "st", ZV(1, -2, 3), At(<<"qfrom", "q", "arr", "list">>, i), At(<<"lyr", "pc", "AU">>, i)),
  LitScalar("sv", At(<<"SphericalPos", "CylindricalPos", "LonLatSphericalPos", "MathSphericalPos">>, i), Pts3Reg[5], Z(2), UL(i)),
  MkReg("S2", "st", "sv", At(<<"reg", "regfrom", "regmap">>, i)),
  LitT("gt", <<>>, <<Z(2)>>, UL(i).time), LitScalar("gq", "CartesianPos3D", ZV(-1, 2, 1), Z(2), UL(i + 1)), LitFv("gf", "gt", "gq"),
  MkReg("G1", "gt", "gf", At(<<"reg", "regmap">>, i)),
  LitV("bv", "CartesianVel3D", <<<<<<1, 2>>, Z(-1), Z(2)>>>>, <<>>, UV(i)),
  IF i % 2 = 0 THEN MkReg("B1", "boost", "bv", At(<<"reg", "regmap">>, i \div 2)) ELSE MkShift("B1", "boost", <<<<1, 2>>, Z(-1), Z(2)>>, At(<<"qfrom", "arr", "list">>, i), At(<<"km/s", "lyr/yr", "pc/Myr">>, i)),
  IF i % 2 = 1 THEN MkReg("V1", "vb", "bv", At(<<"reg", "regmap">>, i)) ELSE MkShift("V1", "vb", <<<<1, 2>>, Z(-1), Z(2)>>, At(<<"qfrom", "arr", "list">>, i), At(<<"km/s", "lyr/yr">>, i)),
  MkId("I") >>
Gal(i) == << MkGal("GO", <<"rotation", "translation", "velocity">>, <<"R1", "G1", "B1">>, At(<<"ops", "raw", "map">>, i)),
             MkGal("GO2", At(<< <<"rotation", "velocity">>, <<"translation">>, <<"velocity">>, <<"rotation">> >>, i),
                   At(<< <<"R2", "B1">>, <<"G1">>, <<"B1">>, <<"R2">> >>, i), "ops") >>
NeedT == {"G1", "B1", "GO", "GO2", "P3", "P4"}
\* arguments: a batch of three and a scalar of a class, times, events, bare quantities
PtsC(c, i) == IF c = "ProlateSpheroidalPos" THEN LET s == ProReg(Z(2)) IN <<At(s, i), At(s, i + 5), At(s, i + 10)>>
              ELSE <<At(Pts3Reg, i), At(Pts3Reg, i + 7), At(Pts3Reg, i + 15)>>
C3Seq == <<"CartesianPos3D", "CylindricalPos", "SphericalPos", "LonLatSphericalPos", "MathSphericalPos", "ProlateSpheroidalPos">>
Args(c, i) == <<
  LitOf("q", c, PtsC(c, i), Z(2), UL(i)),
  LitScalar("q1", c, PtsC(c, i + 3)[1], Z(2), UL(i + 1)),
  LitT("t", <<3>>, <<Z(2), <<-1, 2>>, Z(3)>>, UL(i).time), LitT("t1", <<>>, <<Z(2)>>, UL(i + 2).time),
  LitFv("f", "t", "q"), LitFvC("f1", "t1", "q1", Z(2), At(<<"lyr/yr", "km/s">>, i), At(<<"ctor", "map">>, i)) >>
QArgs(i) == <<
  LitL("Q", <<3>>, ZV(2, -1, 3), Len1(i)), LitL("QB", <<2, 3>>, ZV(1, 2, -1) \o ZV(0, 3, 2), Len1(i + 1)),
  LitL("Q4", <<4>>, <<Z(2)>> \o ZV(2, -1, 3), Len1(i)), LitL("Q4B", <<2, 4>>, <<Z(-1)>> \o ZV(1, 2, 1) \o <<<<1, 2>>>> \o ZV(0, 3, 2), Len1(i)) >>
=============================================================================
