------------------------------- MODULE GenPipe -------------------------------
(* P14: every way of building a sequence of operators acts in the same order. *)
EXTENDS OpsLib
Mode(k) == At(<<"eager", "eager", "jit", "eager", "eager">>, k)
\* ordered triples of different operators (non-commuting neighbours)
Ops4 == <<"R1", "S1", "G1", "B1", "R2", "V1", "GO">>
Trips == SelectSeq(FlattenAll([a \in 1..7 |-> FlattenAll([b \in 1..7 |-> [c \in 1..7 |-> <<Ops4[a], Ops4[b], Ops4[c]>>]])]),
                   LAMBDA t : t[1] # t[2] /\ t[2] # t[3])
\* the ways of writing the sequence a, b, c
Ways(a, b, c) == <<
  << MkPipe("W", <<a, b, c>>, "tuple") >>,
  << MkPipe("W", <<a, b, c>>, "list") >>,
  << MkOr("u", a, b), MkOr("W", "u", c) >>,
  << MkOr("u", b, c), MkOr("W", a, "u") >>,
  << MkPipe("u", <<b, c>>, "tuple"), MkPipe("W", <<a, "u">>, "tuple") >>,
  << MkPipe("u", <<a, b>>, "tuple"), MkPipe("W", <<"u", c>>, "list") >>,
  << MkPipe("u", <<a, b>>, "tuple"), MkPipe("v", <<c>>, "one"), MkOr("W", "u", "v") >>,
  << MkPipe("u", <<c, a, b, c, "I">>, "tuple"), MkSlice("W", "u", <<1, 4, 99>>) >>,
  << MkPipe("u", <<a, "I", b, "I", c>>, "tuple"), MkSlice("W", "u", <<99, 99, 2>>) >>,
  << MkPipe("u", <<"I", a, b, c>>, "tuple"), MkSlice("W", "u", <<-3, 99, 99>>) >>,
  << MkPipe("u", <<c, b, a>>, "tuple"), MkSlice("W", "u", <<99, 99, -1>>) >>,
  << MkPipe("u", <<a, b, c>>, "tuple"), MkItem("x", "u", 0, "get"), MkItem("y", "u", 1, "iter"), MkItem("z", "u", -1, "get"), MkOr("v", "x", "y"), MkOr("W", "v", "z") >>,
  << MkPipe("u", <<a, b, c>>, "tuple"), MkSlice("x", "u", <<99, 1, 99>>), MkSlice("y", "u", <<1, 99, 99>>), MkOr("W", "x", "y") >>,
  << MkPipe("u", <<a, "I">>, "tuple"), MkPipe("v", <<b, c>>, "tuple"), MkPipe("W", <<"u", "I", "v">>, "list") >>,
  << MkPipe("u", <<"I">>, "one"), MkOr("v", "u", a), MkOr("x", "v", b), MkOr("W", "x", c) >>,
  << MkPipe("u", <<a, b, c>>, "tuple"), MkSlice("e", "u", <<1, 1, 99>>), MkOr("v", "e", "u"), MkOr("W", "v", "e") >>,
  << MkPipe("u", <<a, b, c>>, "tuple"), MkPipe("W", <<"u">>, "one") >>,
  << MkPipe("u", <<b>>, "tuple"), MkOr("v", a, "u"), MkOr("W", "v", c) >> >>
Timed == {"G1", "B1", "GO"}
\* a composite operator's own parts
GalWays == <<
  << MkItem("x", "GO", 0, "get"), MkItem("y", "GO", 1, "get"), MkItem("z", "GO", 2, "get"), MkPipe("W", <<"x", "y", "z">>, "tuple") >>,
  << MkItem("x", "GO", 0, "iter"), MkItem("y", "GO", 1, "iter"), MkItem("z", "GO", 2, "iter"), MkOr("u", "x", "y"), MkOr("W", "u", "z") >>,
  << MkSlice("W", "GO", <<99, 99, 99>>) >>,
  << MkItem("x", "GO", 0, "get"), MkSlice("y", "GO", <<1, 99, 99>>), MkOr("W", "x", "y") >>,
  << MkSlice("x", "GO", <<0, 2, 99>>), MkItem("y", "GO", -1, "get"), MkOr("W", "x", "y") >>,
  << MkPipe("W", <<"GO">>, "one") >>, << MkOr("W", "GO", "I") >>, << MkOr("W", "I", "GO") >>,
  << MkSlice("x", "GO", <<99, 99, -1>>), MkSlice("W", "x", <<99, 99, -1>>) >>,
  << MkPipe("W", <<"R1", "G1", "B1">>, "tuple") >>,
  << MkSlice("W", "GO", <<1, 99, 99>>) >>, << MkSlice("W", "GO", <<99, 99, 2>>) >>, << MkSlice("W", "GO", <<-2, 99, 99>>) >>, << MkSlice("W", "GO", <<99, -1, 99>>) >> >>
Do(w, k, withq) == w \o << App("r", <<"W", "q1", "t1">>, Mode(k)) >>
  \o (IF k % 4 = 0 THEN << App("r", <<"W", "f1">>, "eager") >> ELSE <<>>)
  \o (IF k % 5 = 0 THEN << App("r", <<"W", "Q", "t1">>, "eager"), App("r", <<"W", "Q4">>, "eager") >> ELSE <<>>)
  \o (IF withq /\ k % 2 = 0 THEN << App("r", <<"W", "q">>, "eager") >> ELSE <<>>)
NT == IF Thorough THEN Len(Trips) ELSE 48
TripOf(n) == At(Trips, n * 5 + SEED)
ScTrip == [n \in 1..NT |->
   LET t == IF Thorough THEN Trips[n] ELSE TripOf(n)
       i == n + SEED
       c == At(<<"CartesianPos3D", "SphericalPos", "CartesianPos3D", "CylindricalPos", "CartesianPos3D", "LonLatSphericalPos">>, n)
       ws == Ways(t[1], t[2], t[3])
       sel == IF Thorough THEN [k \in DOMAIN ws |-> k] ELSE << ((3 * n) % Len(ws)) + 1, ((3 * n + 1) % Len(ws)) + 1, ((3 * n + 2) % Len(ws)) + 1, (n % Len(ws)) + 1, ((n + 9) % Len(ws)) + 1 >>
       withq == \A j \in 1..3 : ~(t[j] \in Timed)
   IN S0("pt" \o ToString(n), LYR, 0, 64, Pool(i) \o Gal(i) \o Args(c, i) \o QArgs(i) \o FlattenAll([k \in DOMAIN sel |-> Do(ws[sel[k]], k + n, withq)]))]
ScGal == [n \in 1..(IF Thorough THEN 6 ELSE 2) |->
   LET i == n + SEED
   IN S0("pg" \o ToString(n), LYR, 0, 64, Pool(i) \o Gal(i) \o Args(At(C3Seq, n), i) \o QArgs(i) \o FlattenAll([k \in DOMAIN GalWays |-> Do(GalWays[k], k + n, FALSE)]))]
\* velocities along a sequence
ScVel == [n \in 1..(IF Thorough THEN 6 ELSE 2) |->
   LET i == n + SEED
       ws == Ways("S1", "V1", "S2")
   IN S0("pv" \o ToString(n), LYR, 0, 64, Pool(i) \o Args(At(C3Seq, n), i) \o << LitV("p", "CartesianVel3D", <<ZV(1, 2, -1), ZV(2, 0, 1), ZV(-3, 1, 1)>>, <<3>>, UV(i)) >>
        \o FlattenAll([k \in DOMAIN ws |-> ws[k] \o << App("r", <<"W", "q", "p">>, Mode(k)) >>]))]
Scenarios == ScTrip \o ScGal \o ScVel
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
