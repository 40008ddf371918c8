------------------------------- MODULE GenSimp -------------------------------
(* P15: the simplified form acts as the original did.                        *)
EXTENDS OpsLib
Mode(k) == At(<<"eager", "eager", "eager", "jit">>, k)
Simp(d, x, form) == [op |-> "mkop", d |-> d, t |-> "simp", a |-> <<x>>, form |-> form]
SimpTol(d, x, tol) == [op |-> "mkop", d |-> d, t |-> "simp", a |-> <<x>>, atol |-> tol]
Simp2(d, x, y) == [op |-> "mkop", d |-> d, t |-> "simp2", a |-> <<x, y>>]
F(k) == At(<<"method", "func">>, k)
\* more of each kind, so that neighbours of one kind do not commute or differ
More(i) == <<
  MkRot("R3", At(Mats, i + 2), "np"), MkRot("R0", MId(3), "np"), MkShift("S0", "st", ZV(0, 0, 0), "qfrom", "pc"),
  LitT("zt", <<>>, <<R0>>, "yr"), LitScalar("zq", "CartesianPos3D", ZV(0, 0, 0), Z(2), UL(1)), LitFv("zf", "zt", "zq"), MkReg("G0", "gt", "zf", "reg"),
  MkShift("B0", "boost", ZV(0, 0, 0), "qfrom", "km/s"), MkShift("V0", "vb", ZV(0, 0, 0), "qfrom", "km/s"),
  LitT("ht", <<>>, <<<<-3, 2>>>>, UL(i).time), LitScalar("hq", "CartesianPos3D", ZV(2, 0, -1), Z(2), UL(i)), LitFv("hf", "ht", "hq"), MkReg("G2", "gt", "hf", "reg"),
  LitScalar("iq", "CartesianPos3D", ZV(0, 0, 0), Z(2), UL(i)), LitFv("if", "ht", "iq"), MkReg("G3", "gt", "if", "reg"),
  MkShift("B2", "boost", ZV(2, 1, -1), "qfrom", "km/s"), MkShift("V2", "vb", ZV(-1, 0, 2), "qfrom", "km/s"),
  \* almost nothing, but not nothing: one small part, in the unit the operator is held in
  MkShift("Sa", "st", <<R0, <<1, 1000>>, R0>>, "qfrom", "lyr"), MkShift("Sb", "st", <<R0, R0, <<1, 1000>>>>, "qfrom", "lyr"), MkShift("Ba", "boost", <<<<1, 1000>>, R0, R0>>, "qfrom", "lyr/yr"), MkShift("Bb", "boost", <<R0, R0, <<-1, 1000>>>>, "qfrom", "lyr/yr"),
  MkShift("Va", "vb", <<R0, R0, <<1, 1000>>>>, "qfrom", "lyr/yr"), MkShift("Ga", "gt", <<<<1, 1000>>, R0, R0, R0>>, "qfrom", "lyr"), MkShift("Gb", "gt", <<R0, R0, R0, <<1, 1000>>>>, "qfrom", "lyr"),
  MkRot("Ra", RotZ(<<<<9999, 10001>>, <<200, 10001>>, 0>>), "np") >>
GalS == << MkGal("K1", <<"rotation">>, <<"R1">>, "ops"), MkGal("K2", <<"translation">>, <<"G1">>, "ops"), MkGal("K3", <<"velocity">>, <<"B1">>, "ops"),
           MkGal("K4", <<"rotation", "translation">>, <<"R1", "G1">>, "ops"), MkGal("K5", <<"rotation", "velocity">>, <<"R1", "B1">>, "ops"),
           MkGal("K6", <<"translation", "velocity">>, <<"G1", "B1">>, "ops"), MkGal("K7", <<"rotation", "translation", "velocity">>, <<"R0", "G0", "B0">>, "ops"),
           MkGal("K8", <<"translation">>, <<"Ga">>, "ops"), MkGal("K9", <<"rotation", "velocity">>, <<"R1", "Ba">>, "ops"), MkGal("KA", <<"rotation", "translation", "velocity">>, <<"Ra", "Gb", "B1">>, "ops"),
           MkGal("KB", <<"translation">>, <<"G3">>, "ops") >>
Singles == <<"R1", "R2", "S1", "S2", "G1", "B1", "V1", "I", "GO", "GO2", "R0", "S0", "G0", "B0", "V0", "G3", "Sa", "Sb", "Ba", "Bb", "Va", "Ga", "Gb", "Ra",
             "K1", "K2", "K3", "K4", "K5", "K6", "K7", "K8", "K9", "KA", "KB">>
Seqs == << <<"R1", "R2">>, <<"R2", "R1">>, <<"S1", "S2">>, <<"G1", "G2">>, <<"B1", "B2">>, <<"V1", "V2">>, <<"R1", "R2", "R3">>, <<"R3", "R1", "R2">>,
           <<"I", "R1", "R2">>, <<"R1", "I", "R2">>, <<"R1", "R2", "I">>, <<"S1", "I", "S2", "I">>, <<"R1", "S1", "R2">>, <<"S1", "R1", "S2">>, <<"B1", "G1", "B2">>, <<"G1", "B1", "G2">>,
           <<"I">>, <<"I", "I">>, <<"R1", "S1", "S2", "R2">>, <<"S1", "S2", "R1", "R2">>, <<"R1", "R2", "S1", "S2">>, <<"B1", "B2", "G1", "G2">>, <<"GO", "R2">>, <<"R2", "GO">>, <<"R1", "GO", "B1">>,
           <<"V1", "S1", "V2">>, <<"S1", "V1", "S2">>, <<"R1", "R0">>, <<"R0", "R1">>, <<"S0", "S1">>, <<"B1", "B0", "B2">>, <<"Sa", "Sb">>, <<"G1", "G3">>, <<"S1", "G1">>, <<"G1", "S1">>, <<"B1", "V1">>, <<"B1", "R1">>, <<"G1", "R1">>, <<"R1", "V1">> >>
Timed == NeedT \cup {"G0", "G2", "G3", "B0", "B2", "Ba", "Bb", "Ga", "Gb", "K1", "K2", "K3", "K4", "K5", "K6", "K7", "K8", "K9", "KA", "KB"}
Try(r, k, notime) == << App("r", <<r, "q1", "t1">>, Mode(k)) >>
   \o (IF k % 4 = 0 THEN << App("r", <<r, "f1">>, "eager") >> ELSE <<>>)
   \o (IF notime THEN << App("r", <<r, "q1">>, "eager") >> ELSE <<>>)
Single(o, k) == << Simp("m", o, F(k)) >> \o Try("m", k, ~(o \in Timed)) \o (IF o \in {"V1", "V0", "Va"} THEN << App("r", <<"m", "p">>, "eager") >> ELSE <<>>)
                \o << Mk1("z", "inv", o), Simp("m", "z", F(k + 1)) >> \o << App("r", <<"m", "q1", "t1">>, "eager") >>
SeqT(s, k) == LET nt == \A j \in DOMAIN s : ~(s[j] \in Timed)
                  vel == \A j \in DOMAIN s : s[j] \in {"V1", "V2", "S1", "S2", "I"} IN
  << MkPipe("w", s, At(<<"tuple", "list">>, k)), Simp("m", "w", F(k)) >> \o Try("m", k, nt)
  \o << Simp("n", "m", F(k + 1)), App("r", <<"n", "q1", "t1">>, "eager") >>
  \o (IF vel THEN << App("r", <<"m", "q1", "p">>, "eager") >> ELSE <<>>)
  \o (IF s = <<"V1", "V2">> THEN << App("r", <<"m", "p">>, "eager") >> ELSE <<>>)
  \o (IF Len(s) = 2 THEN << Simp2("m", s[1], s[2]), App("r", <<"m", "q1", "t1">>, "eager") >> ELSE <<>>)
  \* with its own inverse: everything cancels
  \o (IF k % 3 = 0 THEN << Mk1("z", "inv", "w"), MkOr("x", "w", "z"), Simp("m", "x", F(k)), App("r", <<"m", "q1", "t1">>, "eager"), MkOr("x", "z", "w"), Simp("m", "x", F(k)), App("r", <<"m", "q1", "t1">>, "eager") >> ELSE <<>>)
\* a tolerance given by the caller
TolT == << SimpTol("m", "Sa", <<1, 100>>), App("r", <<"m", "q1", "t1">>, "eager"), SimpTol("m", "Ba", <<1, 100>>), App("r", <<"m", "q1", "t1">>, "eager"),
           SimpTol("m", "Ga", <<1, 100>>), App("r", <<"m", "q1", "t1">>, "eager"), SimpTol("m", "Gb", <<1, 10000>>), App("r", <<"m", "q1", "t1">>, "eager"),
           SimpTol("m", "Va", <<1, 100>>), App("r", <<"m", "p">>, "eager"), SimpTol("m", "Sa", <<1, 10000>>), App("r", <<"m", "q1", "t1">>, "eager"),
           SimpTol("m", "K8", <<1, 100>>), App("r", <<"m", "q1", "t1">>, "eager"), SimpTol("m", "K9", <<1, 100>>), App("r", <<"m", "q1", "t1">>, "eager"),
           SimpTol("m", "Ra", <<1, 10>>), App("r", <<"m", "q1", "t1">>, "eager"), SimpTol("m", "Ra", <<1, 1000>>), App("r", <<"m", "q1", "t1">>, "eager") >>
NR == IF Thorough THEN 12 ELSE 1
Work == [k \in DOMAIN Singles |-> <<"s", k>>] \o [k \in DOMAIN Seqs |-> <<"q", k>>]
PerSc == 10
NSc == (Len(Work) + PerSc - 1) \div PerSc
Sc == FlattenAll([r \in 1..NR |-> [n \in 1..(NSc + 1) |->
   LET i == n + r + SEED - 2
       c == At(<<"CartesianPos3D", "SphericalPos", "CartesianPos3D", "CylindricalPos">>, n + r)
       part == Clip(Work, (n - 1) * PerSc + 1, n * PerSc)
   IN S0("sm" \o ToString(r) \o "-" \o ToString(n), LYR, 0, 64,
         Pool(i) \o Gal(i) \o More(i) \o GalS \o Args(c, i) \o << LitV("p", "CartesianVel3D", <<ZV(1, 2, -1)>>, <<>>, UV(i)) >>
         \o (IF n = NSc + 1 THEN TolT ELSE FlattenAll([k \in DOMAIN part |-> IF part[k][1] = "s" THEN Single(Singles[part[k][2]], k + r) ELSE SeqT(Seqs[part[k][2]], part[k][2] + r)])))]])
Scenarios == Sc
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
