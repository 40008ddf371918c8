------------------------------ MODULE MCSpace ------------------------------
(* Design model of collections: a walker holds a position, a velocity and an *)
(* acceleration and re-expresses them together, re-expresses one member on    *)
(* its own, and rearranges the batch.  The physical state never changes.    *)
EXTENDS Lat, IOUtils
VARIABLES s, n, ref
vars == <<s, n, ref>>
C5 == <<"CartesianPos3D", "CylindricalPos", "SphericalPos", "LonLatSphericalPos", "MathSphericalPos">>
P2 == << Decode("SphericalPos", <<Z(5), A(4,5,3,5), A(3,5,4,5)>>, R1), Decode("SphericalPos", <<Z(2), A(-3,5,4,5), A(-4,5,3,5)>>, R1) >>
V2 == << <<Z(1), Z(-2), Z(2)>>, <<Z(-4), Z(4), Z(7)>> >>
A2 == << <<Z(2), Z(3), Z(-6)>>, <<R0, Z(-1), Z(2)>> >>
Cart(vs) == Dif("vel", "CartesianVel3D", <<Len(vs)>>, vs, vs, R1)
S0_ == MkSp(<<"length", "velocity", "acceleration">>,
            << Pos("CartesianPos3D", <<2>>, P2, R1), Cart(V2), Dif("acc", "CartesianAcc3D", <<2>>, A2, A2, R1) >>)
\* one velocity shared by both
S1_ == MkSp(<<"length", "speed", "acceleration">>,
            << Pos("CartesianPos3D", <<2>>, P2, R1), Dif("vel", "CartesianVel3D", <<>>, <<V2[1]>>, <<V2[1]>>, R1), Dif("acc", "CartesianAcc3D", <<1>>, <<A2[2]>>, <<A2[2]>>, R1) >>)
Phys(x) ==
  LET f == SpFull(x)
      q == f.m["length"]
      v == f.m["speed"]
      a == f.m["acceleration"]
  IN [i \in DOMAIN q.pts |-> << q.pts[i], ToCart(v.cls, v.cmp[i], q.pts[i], R1), ToCart(a.cls, a.cmp[i], q.pts[i], R1) >>]
Init == s \in {S0_, S1_} /\ n = 0 /\ ref = Phys(s)
MaxN == IF IOEnv.TIER = "thorough" THEN 4 ELSE 3
Flip == [op |-> "arr", f |-> "index", idx |-> <<ISl(NONE, NONE, -1)>>]
\* one member alone goes to another class, at the collection's position
One(d, c) == LET f == SpFull(s)
                 q == f.m["length"]
             IN CASE d = "length" -> [f EXCEPT !.m["length"] = EvalRep([cls |-> c], q)]
                  [] d = "speed" -> [f EXCEPT !.m["speed"] = EvalRepDif([cls |-> VelOfPos(c)], @, q)]
                  [] OTHER -> [f EXCEPT !.m["acceleration"] = EvalRepDif([cls |-> AccOfPos(c)], @, q)]
Next == n < MaxN /\ n' = n + 1
        /\ \/ (\E c \in Range(C5) : s' = EvalRepSp([cls |-> c], s)) /\ UNCHANGED ref
           \/ (\E c \in Range(C5), d \in Range(SpOrd) : s' = One(d, c)) /\ UNCHANGED ref
           \/ s' = EvalArr(Flip, s) /\ ref' = <<ref[2], ref[1]>>
Spec == Init /\ [][Next]_vars
SameState == Phys(s) = ref
Together == LET r == EvalRepSp([cls |-> "SphericalPos"], s)
            IN r.m["length"].cls = "SphericalPos" /\ r.m["speed"].cls = "SphericalVel" /\ r.m["acceleration"].cls = "SphericalAcc" /\ Phys(r) = ref
\* rearranging commutes with re-expressing
Commutes == EvalArr(Flip, EvalRepSp([cls |-> "CylindricalPos"], s)) = EvalRepSp([cls |-> "CylindricalPos"], EvalArr(Flip, s))
\* twice the angular momentum about the axis, from the action-angle-like form
Lz(r) == RAbs(RSub(RMul(r[1][1], r[2][2]), RMul(r[1][2], r[2][1])))
Momentum == LET p == EvalPP(s).items
            IN \A i \in 1..2 : RAdd(RAbs(p[2].val[i]), RAbs(p[5].val[i])) = RMul(Z(2), Lz(ref[i]))
Back == LET b == EvalPPBack(s)
            w == b.m["speed"].cmp
        IN \A i \in 1..2 : b.m["length"].pts[i] = ref[i][1] /\ RMul(RAdd(RSqr(ref[i][1][1]), RSqr(ref[i][1][2])), w[i][2]) = Lz(ref[i])
Equal == EvalEqSp([op |-> "eq", f |-> "eq"], s, s).val \in [1..2 -> {1, 2}]
=============================================================================
