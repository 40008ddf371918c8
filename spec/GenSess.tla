------------------------------- MODULE GenSess -------------------------------
(* P21: sessions.  A pool of objects of every kind in two variants, and a     *)
(* list of calls on them; TLC walks at random through the sessions of         *)
(* Session.tla: make or remake an object, call, try to change one.           *)
EXTENDS FrLib, Session
UT == UL(1)
UD(i) == [len |-> UL(i).len, ang |-> UL(i).ang, time |-> UL(i).time]
P3(c, v) == LET k == 3 * v IN [LitOf("", c, IF c = "ProlateSpheroidalPos" THEN LET s == ProReg(Z(1 + v)) IN <<At(s, k), At(s, k + 5)>> ELSE <<At(Pts3Reg, k), At(Pts3Reg, k + 7)>>, Z(1 + v), UL(v)) EXCEPT !.shape = <<2>>]
LA(c, v) == LitAny("", c, <<2>>, << <<2>> >>, 3 * v, UD(v))
Frm(v) == [op |-> "mkframe", d |-> "", t |-> "gcf", lon |-> Frs[v].lon, lat |-> Frs[v].lat, roll |-> Frs[v].roll, h |-> Frs[v].h, v |-> Frs[v].v, dist |-> Frs[v].d, form |-> "ctor", u |-> [d |-> "lyr", z |-> "lyr", ang |-> "deg", v |-> "lyr/yr"]]
Ld(cls, kd, v, un) == [op |-> "litd", d |-> "", cls |-> cls, kd |-> kd, shape |-> <<2>>, u |-> un, form |-> "ctor", mode |-> "eager",
   vals |-> CASE kd = "len" -> <<Z(v), <<v, 3>>>> [] kd = "ang" -> <<At(<<A(3,5,4,5), A(5,13,12,13)>>, v), A(4,5,3,5)>> [] OTHER -> <<Z(5 * v), Z(0)>>]
Things == << "cart", "cyl", "sph", "lonlat", "msph", "pro", "c2", "pol", "c1", "rad", "nd", "vcart", "vcyl", "vsph", "vcos", "vlon", "acart", "asph", "ac2", "t", "len3",
            "R1", "S1", "B1", "V1", "gcf", "icrs", "dist", "plx", "dm", "ang" >>
LitStep(r, v) ==
  CASE r = "cart" -> P3("CartesianPos3D", v) [] r = "cyl" -> P3("CylindricalPos", v) [] r = "sph" -> P3("SphericalPos", v) [] r = "lonlat" -> P3("LonLatSphericalPos", v)
    [] r = "msph" -> P3("MathSphericalPos", v) [] r = "pro" -> P3("ProlateSpheroidalPos", v) [] r = "c2" -> LA("CartesianPos2D", v) [] r = "pol" -> LA("PolarPos", v)
    [] r = "c1" -> LA("CartesianPos1D", v) [] r = "rad" -> LA("RadialPos", v) [] r = "nd" -> LA("CartesianPosND", 1) [] r = "vcart" -> LA("CartesianVel3D", v)
    [] r = "vcyl" -> LA("CylindricalVel", v) [] r = "vsph" -> LA("SphericalVel", v) [] r = "vcos" -> LA("LonCosLatSphericalVel", v) [] r = "vlon" -> LA("LonLatSphericalVel", v) [] r = "acart" -> LA("CartesianAcc3D", v)
    [] r = "asph" -> LA("SphericalAcc", v) [] r = "ac2" -> LA("CartesianAcc2D", v)
    [] r = "t" -> LitT("", <<2>>, <<Z(v), <<3, 2>>>>, UL(v).time) [] r = "len3" -> LitL("", <<3>>, ZV(v, -2, 3), "lyr")
    [] r = "R1" -> MkRot("", Mats[v], At(<<"np", "q">>, v)) [] r = "S1" -> MkShift("", "st", ZV(1, -2, v), "qfrom", "lyr")
    [] r = "B1" -> MkShift("", "boost", << <<v, 2>>, Z(-1), Z(2)>>, "qfrom", "lyr/yr") [] r = "V1" -> MkShift("", "vb", << <<v, 2>>, Z(1), Z(2)>>, "qfrom", "lyr/yr")
    [] r = "gcf" -> Frm(v) [] r = "icrs" -> [op |-> "mkframe", d |-> "", t |-> "icrs", form |-> "ctor"]
    [] r = "dist" -> Ld("Distance", "len", v, "AU") [] r = "plx" -> Ld("Parallax", "ang", v, "rad") [] r = "dm" -> Ld("DistanceModulus", "mag", v, "mag") [] r = "ang" -> Ld("Angle", "ang", v, "rad")
\* ---- calls: every one writes its own register ----
Rp(a, c, m) == [op |-> "rep", a |-> <<a>>, cls |-> c, kw |-> <<>>, mode |-> m]
Rd(a, c, m) == [op |-> "repd", a |-> a, cls |-> c, kw |-> <<>>, mode |-> m]
Ar(f, a, fm) == [op |-> "arith", f |-> f, a |-> a, form |-> fm, mode |-> "eager"]
Ms(f, a, s, side) == [op |-> "arith", f |-> f, a |-> <<a>>, s |-> s, num |-> "float", side |-> side, form |-> "op", mode |-> "eager"]
Eq(a, b) == [op |-> "eq", f |-> "eq", a |-> <<a, b>>, form |-> "op", mode |-> "eager"]
Uc(a, s) == [op |-> "uc", a |-> <<a>>, sys |-> s]
Sj(f, a, cls) == [op |-> "sj", f |-> f, a |-> a, cls |-> cls]
Apl(a) == [op |-> "apply", a |-> a, mode |-> "eager"]
Ix(a, ix) == [op |-> "arr", f |-> "index", a |-> <<a>>, idx |-> ix]
Mk(t, a) == [op |-> "mkop", t |-> t, a |-> a, form |-> "ctor"]
Cv(a, to, f) == [op |-> "dconv", a |-> <<a>>, to |-> to, sc |-> "AU", form |-> f, mode |-> "eager"]
X3 == <<"cart", "cyl", "sph", "lonlat", "msph", "pro">>
K3 == <<"CartesianPos3D", "CylindricalPos", "SphericalPos", "LonLatSphericalPos", "MathSphericalPos">>
Xv == <<"vcart", "vcyl", "vsph", "vcos", "vlon">>
Kv == <<"CartesianVel3D", "CylindricalVel", "SphericalVel", "LonCosLatSphericalVel", "LonLatSphericalVel">>
CallsQ ==
  FlattenAll([i \in 1..6 |-> << Rp(X3[i], At(K3, i + 1), "eager"), Rp(X3[i], At(K3, i + 3), "eager"), Sj("rep", <<X3[i]>>, At(K3, i + 2)), Sj("rep", <<X3[i]>>, At(K3, i + 4)) >>])
  \o << [Rp("cart", "ProlateSpheroidalPos", "eager") EXCEPT !.kw = [Delta |-> <<"len", <<Z(2)>>, <<>>, "lyr">>]], [Rp("cart", "ProlateSpheroidalPos", "eager") EXCEPT !.kw = [Delta |-> <<"len", <<Z(3)>>, <<>>, "lyr">>]],
        [Rp("pro", "ProlateSpheroidalPos", "eager") EXCEPT !.kw = [Delta |-> <<"len", <<<<3, 2>>>>, <<>>, "lyr">>]], Rp("cyl", "PolarPos", "eager"), Rp("cart", "CartesianPos2D", "eager"), Rp("sph", "RadialPos", "eager"),
        Rp("c2", "PolarPos", "eager"), Rp("pol", "CartesianPos2D", "eager"), Rp("c1", "RadialPos", "eager"), Rp("rad", "CartesianPos1D", "eager"), Rp("pol", "CylindricalPos", "eager") >>
  \o FlattenAll([i \in 1..5 |-> << Rd(<<Xv[i], "cart">>, At(Kv, i + 1), "eager"), Rd(<<Xv[i], At(X3, i)>>, At(Kv, i + 2), "eager"), Sj("repd", <<Xv[i], "sph">>, At(Kv, i + 3)), Sj("repd", <<Xv[i], "lonlat">>, At(Kv, i + 4)) >>])
  \o << Rd(<<"acart", "vcart", "cart">>, "SphericalAcc", "eager"), Rd(<<"asph", "vsph", "sph">>, "CartesianAcc3D", "eager"), Sj("repd", <<"acart", "vcart", "cyl">>, "CylindricalAcc"),
        Ar("add", <<"cart", "sph">>, "op"), Ar("add", <<"sph", "cart">>, "op"), Ar("sub", <<"cyl", "lonlat">>, "op"), Ar("sub", <<"lonlat", "cyl">>, "func"), Ar("add", <<"c2", "pol">>, "op"), Ar("add", <<"vcart", "vcart">>, "op"),
        Ar("neg", <<"sph">>, "op"), Ar("neg", <<"pro">>, "op"), Ar("norm", <<"cyl">>, "op"), Ar("norm", <<"pro">>, "op"), Ms("mul", "sph", <<-3, 2>>, "R"), Ms("mul", "cyl", Z(2), "L"), Ms("div", "cart", Z(4), "R"), Ms("mul", "vcart", Z(3), "R"),
        Sj("add", <<"cart", "cyl">>, ""), Sj("add", <<"sph", "msph">>, ""), Sj("neg", <<"lonlat">>, ""), Sj("norm", <<"sph">>, ""),
        Eq("cart", "cart"), Eq("sph", "sph"), Eq("vcyl", "vcyl"), Uc("sph", "si"), Uc("pro", "galactic"), Uc("vsph", "galactic"), Uc("acart", "si"),
        Ix("cyl", <<IInt(0)>>), Ix("sp", <<IInt(-1)>>), Ix("pro", <<ISl(NONE, NONE, -1)>>), [op |-> "arr", f |-> "reshape", a |-> <<"lonlat">>, shape |-> <<2, 1>>],
        [op |-> "vtime", a |-> <<"vcart", "t">>, form |-> "op", mode |-> "eager"], [op |-> "vtime", a |-> <<"acart", "t">>, form |-> "op", mode |-> "eager"],
        [op |-> "litfv", d |-> "fv", a |-> <<"t", "cart">>], [op |-> "litfv", d |-> "fs", a |-> <<"t", "sph">>], [op |-> "litsp", d |-> "sp", keys |-> <<"length", "speed", "acceleration">>, a |-> <<"cart", "vcart", "acart">>, form |-> "map"],
        [op |-> "litsp", d |-> "sq", keys |-> <<"length", "speed">>, a |-> <<"sph", "vsph">>, form |-> "kw"],
        [op |-> "fvget", f |-> "q4", a |-> <<"fv">>, mode |-> "eager"], Ar("norm2", <<"fs">>, "op"), Ar("add", <<"fv", "fs">>, "op"), Ar("neg", <<"fv">>, "op"),
        Rp("sp", "CylindricalPos", "eager"), Rp("sq", "CartesianPos3D", "eager"), Sj("rep", <<"sp">>, "SphericalPos"), [op |-> "spget", f |-> "member", a |-> <<"sp">>, key |-> "speed", form |-> "item", mode |-> "eager"],
        MkReg("G1", "gt", "fv", "reg"), [Mk("pipe", <<"R1", "S1">>) EXCEPT !.form = "list"] @@ [d |-> "P1"], [Mk("or", <<"S1", "R1">>) EXCEPT !.form = "op"] @@ [d |-> "P2"], Mk("or", <<"P1", "V1">>) @@ [d |-> "P3"], Mk("or", <<"P1", "P2">>) @@ [d |-> "P4"],
        MkGal("GO", <<"rotation", "velocity">>, <<"R1", "B1">>, "ops"), Mk("inv", <<"P1">>), Mk("inv", <<"R1">>), Mk("simp", <<"P4">>), Mk("simp", <<"P1">>), Mk("simp", <<"GO">>), Mk("inv", <<"GO">>), Mk("matmul", <<"R1", "R1">>),
        Apl(<<"R1", "cart">>), Apl(<<"R1", "sph">>), Apl(<<"S1", "cyl">>), Apl(<<"S1", "len3">>), Apl(<<"R1", "len3">>), Apl(<<"P1", "cart">>), Apl(<<"P2", "cart">>), Apl(<<"P4", "sph">>), Apl(<<"V1", "sph", "vsph">>), Apl(<<"P3", "cart", "vcart">>), Apl(<<"B1", "cart", "t">>),
        Apl(<<"B1", "fv">>), Apl(<<"GO", "cart", "t">>), Apl(<<"GO", "fs">>), Apl(<<"G1", "cart", "t">>),
        Sj("apply", <<"R1", "cart">>, ""), Sj("apply", <<"S1", "cart">>, ""), Sj("apply", <<"P1", "sph">>, ""), Sj("apply", <<"P2", "sph">>, ""), Sj("apply", <<"B1", "cart", "t">>, ""), Sj("apply", <<"V1", "cart", "vcart">>, ""), Sj("apply", <<"GO", "fv">>, ""),
        [op |-> "mkop", t |-> "frame", a |-> <<"icrs", "gcf">>, form |-> "func", d |-> "fo"], [op |-> "mkop", t |-> "frame", a |-> <<"gcf", "icrs">>, form |-> "meth", d |-> "fb"], [op |-> "mkop", t |-> "frame", a |-> <<"gcf", "gcf">>, form |-> "func"],
        [d |-> "ci"] @@ Ix("cart", <<IInt(1)>>), [d |-> "si"] @@ Ix("sph", <<IInt(0)>>), [d |-> "vi"] @@ Ix("vcart", <<IInt(0)>>), Apl(<<"fo", "ci", "vi">>), Apl(<<"fb", "ci", "vi">>), Apl(<<"fo", "si", "vi">>), Apl(<<"fb", "si", "vi">>), [op |-> "frget", f |-> "galcen", a |-> <<"gcf">>],
        Cv("dist", "Parallax", "prop"), Cv("plx", "Distance", "prop"), Cv("dm", "Distance", "prop"), Cv("dist", "DistanceModulus", "prop"), [op |-> "darith", f |-> "add", a |-> <<"dist", "dist">>, form |-> "op", mode |-> "eager"], [op |-> "darith", f |-> "neg", a |-> <<"ang">>, form |-> "op", mode |-> "eager"],
        [op |-> "toap", a |-> <<"sph">>, to |-> "Base", d |-> "as"], [op |-> "toap", a |-> <<"cyl">>, to |-> "CartesianPos3D"], [op |-> "toap", a |-> <<"cart">>, to |-> "Quantity"], [op |-> "fromap", a |-> <<"as">>, cls |-> "CartesianPos3D", form |-> "from"],
        [op |-> "fromap", a |-> <<"as">>, cls |-> "CylindricalPos", form |-> "conv"] >>
Calls == [i \in DOMAIN CallsQ |-> IF Has(CallsQ[i], "d") THEN CallsQ[i] ELSE [d |-> "o" \o ToString(i)] @@ CallsQ[i]]
\* ---- attempts at changing an object, and things that only look at one ----
Tries == <<"fields", "new", "delete", "setitem", "delitem", "leaf", "npleaf", "read", "source", "answer", "inplace">>
\* ---- ways of copying an object; its copy takes its place ----
Copies == <<"copy", "deepcopy", "pickle", "tree", "replace", "parts", "put">>
\* ---- the walk ----
VARIABLES reg, hist
vars == <<reg, hist>>
Len0 == IF Thorough THEN 400 ELSE 300
Ev(e) == hist' = Append(hist, e)
\* everything is made once, in either variant
Init == hist = <<>> /\ reg = <<>>
\* and the calls whose results have names
Firsts == SelectSeq([i \in DOMAIN Calls |-> i], LAMBDA i : Has(CallsQ[i], "d"))
Start == /\ hist = <<>>
         /\ \E b \in 1..2 : /\ hist' = [i \in DOMAIN Things |-> [e |-> "make", d |-> Things[i], v |-> b]]
                                      \o [k \in DOMAIN Firsts |-> LET c == Calls[Firsts[k]] IN [e |-> "call", c |-> Firsts[k], a |-> c.a, d |-> c.d]]
                            /\ reg' = FoldLeft(LAMBDA g, i : CallOf(g, i, Calls[i].a, Calls[i].d), [r \in {Things[i] : i \in DOMAIN Things} |-> LitTerm(r, b)], Firsts)
MakeA(i, v) == /\ reg' = MakeOf(reg, Things[i], v) /\ Ev([e |-> "make", d |-> Things[i], v |-> v])
CallA(i) == LET c == Calls[i] IN Bound(reg, c.a) /\ reg' = CallOf(reg, i, c.a, c.d) /\ Ev([e |-> "call", c |-> i, a |-> c.a, d |-> c.d])
TryA(r, f) == UNCHANGED reg /\ Ev([e |-> "mut", r |-> r, f |-> f])
CopyA(r, f) == reg' = CopyOf(reg, r) /\ Ev([e |-> "copy", r |-> r, f |-> f])
Again == \E k \in 1..8 : LET j == Len(hist) + 1 - k * k IN j > Len(Things) /\ hist[j].e = "call" /\ CallA(hist[j].c)
\* calls every other time
Next == \/ Start
        \/ /\ hist # <<>> /\ Len(hist) < Len0
           /\ \E k \in {RandomElement(1..16)} :
                \/ k <= 7 /\ \E i \in {RandomElement({j \in DOMAIN Calls : Bound(reg, Calls[j].a)})} : CallA(i)
                \/ k \in 8..9 /\ (Again \/ (\E i \in {RandomElement(DOMAIN Things)}, v \in {RandomElement(1..2)} : MakeA(i, v)))
                \/ k \in 10..11 /\ (\E i \in {RandomElement(DOMAIN Things)}, v \in {RandomElement(1..2)} : MakeA(i, v))
                \/ k \in 15..16 /\ (\E r \in {RandomElement(DOMAIN reg)}, f \in {RandomElement({Copies[j] : j \in DOMAIN Copies})} : CopyA(r, f))
                \/ k \in 12..14 /\ \E r \in {RandomElement(DOMAIN reg)}, f \in {RandomElement({Tries[j] : j \in DOMAIN Tries})} : TryA(r, f)
        \/ Len(hist) = Len0 /\ reg # <<>> /\ reg' = <<>> /\ UNCHANGED hist
Spec == Init /\ [][Next]_vars
\* at the end everything that has a name is tampered with and copied once more; the sessions together go through all ways
Named == Things \o << "fv", "fs", "sp", "sq", "G1", "P1", "P2", "P3", "P4", "GO", "fo", "fb", "ci", "si", "vi" >>
Rest(k) == FlattenAll([i \in DOMAIN Named |-> [j \in 1..3 |-> [e |-> "mut", r |-> Named[i], f |-> At(Tries, i + 3 * k + j)]]
                                             \o << [e |-> "copy", r |-> Named[i], f |-> At(Copies, i + k)] >>])
Stock == [r \in {Things[i] : i \in DOMAIN Things} |-> << LitStep(r, 1), LitStep(r, 2) >>]
Emit == Len(hist) < Len0 \/ reg # <<>> \/ PrintT("@SC " \o ToJson([id |-> "s" \o ToString(SEED) \o "-" \o ToString(TLCGet("stats").traces), base |-> LYR, mag |-> 0, prec |-> 64, sess |-> 1, steps |-> hist \o Rest(TLCGet("stats").traces)]))
ASSUME ndJsonSerialize(IOEnv.OUT \o ".pool", << [pool |-> Stock, calls |-> Calls] >>)
=============================================================================
