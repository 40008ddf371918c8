------------------------------- MODULE GenInv -------------------------------
(* P13: an operator then its inverse, its inverse then the operator, and the *)
(* inverse of the inverse, on positions, times, velocities and events.       *)
EXTENDS OpsLib
Comps(i) == << MkPipe("P1", <<"R1", "S1">>, "tuple"), MkPipe("P2", <<"S2", "V1", "R2", "I", "S1">>, "list"), MkPipe("P3", <<"B1", "G1", "R1", "B1">>, "tuple"),
               MkPipe("P4", <<"P1", "GO", "P3">>, "tuple"), MkOr("P5", "G1", "P2"), MkSlice("P6", "P4", <<1, 99, 99>>), MkSlice("P7", "GO", <<0, 2, 99>>),
               Mk1("N1", "neg", "S1"), Mk1("N2", "neg", "R1"), Mk1("N3", "neg", "B1"), [op |-> "mkop", d |-> "MM", t |-> "matmul", a |-> <<"R1", "R2">>] >>
All == <<"R1", "R2", "S1", "S2", "G1", "B1", "V1", "I", "GO", "GO2", "P1", "P2", "P3", "P4", "P5", "P6", "P7", "N1", "N2", "N3", "MM">>
NT == NeedT \cup {"P5", "P6", "P7", "N3"}
Mode(k) == At(<<"eager", "eager", "jit", "eager">>, k)
Trip(o, as, k) == << App("x", <<o>> \o as, Mode(k)), App("y", <<"Z", "x">>, "eager"), App("x", <<"Z">> \o as, "eager"), App("y", <<o, "x">>, Mode(k + 1)), App("y", <<"ZZ">> \o as, "eager") >>
On(o, k) == << Mk1("Z", "inv", o), Mk1("ZZ", "inv", "Z") >>
   \o (IF o \in NT THEN <<>> ELSE Trip(o, <<"q">>, k))
   \o Trip(o, <<"q", "t">>, k + 1) \o Trip(o, <<"f1">>, k + 2)
   \o (IF k % 3 = 0 THEN Trip(o, <<"Q", "t1">>, k) \o (IF o \in NT THEN <<>> ELSE Trip(o, <<"QB">>, k)) ELSE <<>>)
Cls(k) == At(C3Seq, k)
\* the operators are spread over the representations; thorough covers every pair
NC == IF Thorough THEN 6 ELSE 1
Chunk(o) == (CHOOSE k \in DOMAIN All : All[k] = o)
ScInv == FlattenAll([r \in 1..NC |-> [n \in DOMAIN C3Seq |->
   LET i == n + r + SEED - 2
       c == Cls(n)
       ops == IF Thorough THEN SelectSeq(All, LAMBDA o : (Chunk(o) + r) % 6 = n % 6 \/ r > 3) ELSE SelectSeq(All, LAMBDA o : (Chunk(o) + SEED) % 6 = n % 6)
   IN S0("iv" \o ToString(r) \o "-" \o c, LYR, 0, 64, Pool(i) \o Gal(i) \o Comps(i) \o Args(c, i) \o QArgs(i) \o FlattenAll([k \in DOMAIN ops |-> On(ops[k], k + i)]))]])
ScVel == [n \in DOMAIN C3Seq |->
   LET i == n + SEED
       c == C3Seq[n]
       ops == <<"S1", "S2", "V1", "PV", "PN">>
   IN S0("ivv-" \o c, LYR, 0, 64, Pool(i) \o Args(c, i) \o << MkPipe("PV", <<"S1", "V1", "S2">>, "tuple"), MkOr("PN", "PV", "V1"),
        LitV("p", "CartesianVel3D", <<ZV(1, 2, -1), ZV(2, 0, 1), ZV(-3, 1, 1)>>, <<3>>, UV(i)) >>
        \o FlattenAll([k \in DOMAIN ops |-> << Mk1("Z", "inv", ops[k]), Mk1("ZZ", "inv", "Z") >> \o Trip(ops[k], <<"q", "p">>, k)])
        \o << Mk1("Z", "inv", "V1"), Mk1("ZZ", "inv", "Z") >> \o Trip("V1", <<"p">>, 1)
        \o (IF c = "CartesianPos3D" THEN <<>> ELSE << LitV("w", VelOfPos(c), <<ZV(1, 2, -1), ZV(2, 0, 1), ZV(-3, 1, 1)>>, <<3>>, UL(i)), MkPipe("PS", <<"S1", "S2">>, "tuple"),
              Mk1("Z", "inv", "PS"), Mk1("ZZ", "inv", "Z") >> \o Trip("PS", <<"q", "w">>, n) \o << Mk1("Z", "inv", "S1"), Mk1("ZZ", "inv", "Z") >> \o Trip("S1", <<"q", "w">>, n)))]
Scenarios == ScInv \o ScVel
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
