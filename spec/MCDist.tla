------------------------------- MODULE MCDist -------------------------------
(* Design model of distances: a walker converts a batch of distances between  *)
(* the three ways of writing them, doubles it, adds it to itself and turns it *)
(* round.  Written any way, it is the length it should be.                  *)
EXTENDS Lat, IOUtils
VARIABLES x, sc, n, len
vars == <<x, sc, n, len>>
XA == DistV("Distance", "len", <<2>>, << <<12, 5>>, <<3, 4>> >>)
PA == DistV("Parallax", "ang", <<2>>, << A(24,25,7,25), A(15,17,8,17) >>)
XP == DistV("Distance", "len", <<2>>, << Z(100), Z(10) >>)
MP == DistV("DistanceModulus", "mag", <<2>>, << Z(10), Z(-5) >>)
PP == DistV("Parallax", "arc", <<2>>, << <<1, 100>>, <<1, 10>> >>)
Lens(v) == [i \in DOMAIN v.el |-> v.el[i].l]
Init == \E p \in { <<XA, "AU">>, <<PA, "AU">>, <<XP, "pc">>, <<MP, "pc">>, <<PP, "pc">> } : x = p[1] /\ sc = p[2] /\ n = 0 /\ len = Lens(p[1])
MaxN == IF IOEnv.TIER = "thorough" THEN 6 ELSE 4
Flip == [op |-> "arr", f |-> "index", idx |-> <<ISl(NONE, NONE, -1)>>]
Ar(f) == EvalDarith([op |-> "darith", f |-> f, a |-> <<"x", "x">>, s |-> Z(2)], [x |-> x])
Conv(v, to) == EvalDconv([op |-> "dconv", to |-> to, sc |-> sc], v)
Next == n < MaxN /\ n' = n + 1 /\ UNCHANGED sc
        /\ \/ (\E to \in {"Distance", "Parallax", "DistanceModulus"} : x' = Conv(x, to)) /\ UNCHANGED len
           \/ x' = EvalArr(Flip, x) /\ len' = <<len[2], len[1]>>
           \* doubling as lengths doubles them; sums of the other ways of writing are sums of what is written
           \/ x.cls = "Distance" /\ x' = Ar("mul") /\ len' = [i \in 1..2 |-> RMul(Z(2), len[i])]
           \/ x.cls = "Distance" /\ x' = Ar("add") /\ len' = [i \in 1..2 |-> RMul(Z(2), len[i])]
           \/ x.cls # "Distance" /\ x.kd = "arc" /\ (\A i \in 1..2 : IsRat(x.el[i].s)) /\ x' = Ar("add") /\ len' = [i \in 1..2 |-> RMul(<<1, 2>>, len[i])]
Spec == Init /\ [][Next]_vars
SameLength == \A i \in 1..2 : x.el[i].l = len[i]
RoundTrip == \A c \in {"Distance", "Parallax", "DistanceModulus"} : Lens(Conv(Conv(x, c), "Distance")) = len
\* what is known is consistent
Consistent == \A i \in 1..2 : LET e == x.el[i] IN
   /\ AngRat(e.a) => RMul(S(e.a), e.l) = C(e.a)
   /\ IsRat(e.s) => RMul(e.s, e.l) = R1
   /\ IsRat(e.m) => e.l = Pow10(e.m[1] \div 5 + 1)
   /\ IsRat(e.l5) => e.l5 = RPow(e.l, 5)
\* nearer is larger as a parallax, smaller as a modulus
Order == LET p == Conv(x, "Parallax")
             c == CmpLin(p.kd, LinOf(p.kd, p.el[1]), LinOf(p.kd, p.el[2]))
         IN c # 2 => c = -RSgn(RSub(len[2], len[1]))
=============================================================================
