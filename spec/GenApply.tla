------------------------------ MODULE GenApply ------------------------------
(* P12: every operator on every argument form, every representation.         *)
EXTENDS OpsLib
Pipes == << MkPipe("P1", <<"R1", "S1">>, "tuple"), MkPipe("P2", <<"S2", "V1", "R2", "I">>, "list"),
            MkPipe("P3", <<"B1", "G1">>, "tuple"), MkPipe("P4", <<"R1", "GO", "S1", "B1">>, "tuple"), MkPipe("PV", <<"S1", "V1", "S2">>, "tuple") >>
All == <<"R1", "R2", "S1", "S2", "G1", "B1", "V1", "I", "GO", "GO2", "P1", "P2", "P3", "P4">>
Mode(k) == At(<<"eager", "eager", "jit", "eager", "eqxjit", "eager">>, k)
On(o, k) == (IF o \in NeedT THEN <<>> ELSE << App("r", <<o, "q">>, Mode(k)), App("r", <<o, "q1">>, "eager") >>)
            \o << App("r", <<o, "q", "t">>, Mode(k + 1)), App("r", <<o, "q", "t1">>, Mode(k + 3)), App("r", <<o, "q1", "t1">>, "eager"),
                  App("r", <<o, "f">>, Mode(k + 2)), App("r", <<o, "f1">>, "eager") >>
OnQ(o, k) == (IF o \in NeedT THEN <<>> ELSE << App("r", <<o, "Q">>, Mode(k)), App("r", <<o, "QB">>, "eager") >>)
             \o << App("r", <<o, "Q", "t1">>, Mode(k + 1)), App("r", <<o, "QB", "t1">>, Mode(k)), App("r", <<o, "Q4">>, Mode(k + 2)), App("r", <<o, "Q4B">>, "eager") >>
Setup(i) == Pool(i) \o Gal(i) \o Pipes
\* a quick run takes half of the operators for each class (which half turns with the seed)
Half(c, i) == IF Thorough THEN All ELSE SelectSeq(All, LAMBDA o : (CHOOSE k \in DOMAIN All : All[k] = o) % 2 = (i + SEED) % 2)
ScPos == FlattenAll([r \in 1..(IF Thorough THEN 8 ELSE 1) |-> [n \in DOMAIN C3Seq |->
   LET c == C3Seq[n]
       i == n + r + SEED - 2
       ops == Half(c, n + r)
   IN S0("ap" \o ToString(r) \o "-" \o c, LYR, 0, 64, Setup(i) \o Args(c, i) \o FlattenAll([k \in DOMAIN ops |-> On(ops[k], k + i)]))]])
ScQ == FlattenAll([r \in 1..(IF Thorough THEN 8 ELSE 1) |-> [n \in 1..2 |->
   LET i == n + 2 * r + SEED - 3
       ops == IF n = 1 THEN SelectSeq(All, LAMBDA o : (CHOOSE k \in DOMAIN All : All[k] = o) % 2 = 1) ELSE SelectSeq(All, LAMBDA o : (CHOOSE k \in DOMAIN All : All[k] = o) % 2 = 0)
   IN S0("aq" \o ToString(r) \o "-" \o ToString(n), LYR, 0, 64, Setup(i) \o <<LitT("t1", <<>>, <<<<3, 2>>>>, UL(i).time)>> \o QArgs(i) \o FlattenAll([k \in DOMAIN ops |-> OnQ(ops[k], k + i)]))]])
\* positions with velocities
VelArgs(c, i) == << LitV("p", "CartesianVel3D", <<ZV(1, 2, -1), ZV(2, 0, 1), ZV(-3, 1, 1)>>, <<3>>, UV(i)), LitV("p1", "CartesianVel3D", <<ZV(1, 2, -1)>>, <<>>, UV(i)),
                    LitV("p2", "CartesianVel3D", <<ZV(1, 2, -1), ZV(2, 0, 1)>>, <<2>>, UV(i + 1)), LitOf("q2", c, SubSeq(PtsC(c, i), 1, 2), Z(2), UL(i)) >>
OwnVel(c, i) == IF c = "CartesianPos3D" THEN <<>> ELSE << LitV("w", VelOfPos(c), <<ZV(1, 2, -1), ZV(2, 0, 1), ZV(-3, 1, 1)>>, <<3>>, UL(i)) >>
Keep(st) == [st EXCEPT !.d = "r"]
ScVel == FlattenAll([r \in 1..(IF Thorough THEN 8 ELSE 1) |-> [n \in DOMAIN C3Seq |->
   LET c == C3Seq[n]
       i == n + r + SEED
       ops == <<"S1", "S2", "V1", "I", "PV">>
   IN S0("av" \o ToString(r) \o "-" \o c, LYR, 0, 64, Setup(i) \o Args(c, i) \o VelArgs(c, i) \o OwnVel(c, i)
        \o FlattenAll([k \in DOMAIN ops |-> << App("r", <<ops[k], "q", "p">>, Mode(k)), App("r", <<ops[k], "q1", "p1">>, "eager"), App("r", <<ops[k], "q2", "p2">>, Mode(k + 2)) >>])
        \o << App("r", <<"V1", "p">>, "eager"), App("r", <<"I", "p">>, "eager"), MkPipe("PW", <<"V1", "I", "V1">>, "tuple"), App("r", <<"PW", "p1">>, "eager"), App("r", <<"PW", "p">>, "jit") >>
        \o (IF c = "CartesianPos3D" THEN <<>>
            ELSE << App("r", <<"S1", "q", "w">>, "eager"), App("r", <<"S2", "q", "w">>, "eager"), App("r", <<"I", "q", "w">>, "eager"),
                    MkPipe("PS", <<"S1", "I", "S2">>, "tuple"), App("r", <<"PS", "q", "w">>, "eager") >>))]])
\* one and two dimensions
LowCls == <<"CartesianPos1D", "RadialPos", "CartesianPos2D", "PolarPos">>
LowPts(c) == IF DimOf(c) = 1 THEN <<<<Z(3)>>, <<<<5, 2>>>>, <<Z(7)>>>> ELSE <<Pts2[2], Pts2[6], Pts2[9]>>
DV(c) == IF DimOf(c) = 1 THEN <<Z(2)>> ELSE <<Z(1), Z(-2)>>
BV(c) == IF DimOf(c) = 1 THEN <<<<1, 2>>>> ELSE <<Z(1), <<-1, 2>>>>
ScLow == FlattenAll([r \in 1..(IF Thorough THEN 6 ELSE 1) |-> [n \in DOMAIN LowCls |->
   LET c == LowCls[n]
       i == n + r + SEED
       d == DimOf(c)
       cv == IF d = 1 THEN "CartesianVel1D" ELSE "CartesianVel2D"
   IN S0("al" \o ToString(r) \o "-" \o c, LYR, 0, 64,
         << MkShift("S", "st", DV(c), At(<<"q", "qfrom", "arr">>, i), At(<<"lyr", "pc">>, i)), LitV("bv", cv, <<BV(c)>>, <<>>, UV(i)), MkReg("B", "boost", "bv", "reg"), MkReg("V", "vb", "bv", "reg"),
            MkPipe("P", <<"S", "B">>, "tuple"), MkPipe("N", <<"S", "V", "S">>, "tuple"),
            LitOf("q", c, LowPts(c), Z(2), UL(i)), LitScalar("q1", c, LowPts(c)[2], Z(2), UL(i + 1)), LitT("t", <<3>>, <<Z(2), <<1, 2>>, Z(4)>>, UL(i).time), LitT("t1", <<>>, <<Z(2)>>, UL(i).time),
            LitV("p", cv, <<BV(c), DV(c), BV(c)>>, <<3>>, UV(i)),
            App("r", <<"S", "q">>, "eager"), App("r", <<"S", "q", "t">>, "eager"), App("r", <<"B", "q", "t">>, "eager"), App("r", <<"B", "q1", "t">>, "eager"), App("r", <<"B", "q", "t1">>, "jit"), App("r", <<"V", "q">>, "eager"),
            App("r", <<"P", "q", "t">>, "eager"), App("r", <<"P", "q1", "t1">>, "eager"), App("r", <<"N", "q">>, "eager"), App("r", <<"S", "q", "p">>, "eager"), App("r", <<"N", "q", "p">>, "eager"),
            Mk1("Z", "inv", "P"), App("x", <<"P", "q", "t">>, "eager"), App("r", <<"Z", "x">>, "eager"), Mk1("M", "simp", "S"), App("r", <<"M", "q">>, "eager"), Mk1("M", "simp", "B"), App("r", <<"M", "q", "t">>, "eager"),
            LitL("Q", <<d>>, [j \in 1..d |-> Z(3)], Len1(i)), App("r", <<"S", "Q">>, "eager"), App("r", <<"S", "Q", "t1">>, "eager"), App("r", <<"P", "Q", "t1">>, "eager"), App("r", <<"N", "Q">>, "eager"),
            LitL("Q", <<2, d>>, [j \in 1..(2 * d) |-> Z(j)], Len1(i)), App("r", <<"S", "Q">>, "eager"), App("r", <<"P", "Q", "t1">>, "eager") >>)]])
Scenarios == ScPos \o ScQ \o ScVel \o ScLow
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
