------------------------------ MODULE GenCanon ------------------------------
(* Canonical ranges: every component of every class on, just inside, just   *)
(* outside and far outside its limits, in every batch position and unit.    *)
EXTENDS Lat, IOUtils

\* 0.0115 deg and 11.4 deg, as exact directions
Tiny == A(99999999, 100000001, 20000, 100000001)
Small == A(99, 101, 20, 101)
Near == A(14399, 14401, 240, 14401)          \* 0.955 deg
GoodPol == <<AngZero, Ang180, Ang90, A(3,5,4,5), A(-4,5,3,5), Small, AngSub(Ang180, Small), Near, AngSub(Ang180, Near)>>
BadPol == <<AngNeg(Tiny), AngAdd(Ang180, Tiny), AngNeg(Small), AngAdd(Ang180, Small), Ang270, AngNeg(Ang90),
            <<R0, R1, 1>>, <<R1, R0, 1>>>>
GoodLat == <<AngZero, Ang90, AngNeg(Ang90), A(3,5,4,5), AngNeg(A(4,5,3,5)), AngSub(Ang90, Small), AngSub(Small, Ang90), AngSub(Ang90, Near), AngSub(Near, Ang90)>>
BadLat == <<AngAdd(Ang90, Tiny), AngNeg(AngAdd(Ang90, Tiny)), Ang180, AngNeg(Ang180), AngAdd(Ang90, Small), Ang270>>
Az(k) == [i \in DOMAIN Az12 |-> <<Az12[i][1], Az12[i][2], k>>]
GoodAz == Az(0) \o Az(1) \o Az(-1) \o Az(2) \o Az(-3) \o <<A(24,25,7,25), A(24,25,-7,25), AngNeg(A(24,25,7,25))>>
AzAxes == FlattenAll([j \in 1..7 |-> [i \in 1..4 |-> <<Axes4[i][1], Axes4[i][2], j - 4>>]])
GoodRad == <<Z(1), R0, <<5, 2>>, Z(1000)>>
BadRad == <<Z(-1), <<-1, 1000000000>>, <<-5, 2>>>>
D == Z(2)
GoodMu == <<Z(4), <<25, 4>>, <<100, 9>>, <<169, 36>>>>
BadMu == <<Z(3), R0, Z(-5), <<3999999, 1000000>>>>
GoodNu == <<<<36, 25>>, <<-64, 25>>, R0, Z(4), Z(-4)>>
BadNu == <<Z(5), Z(-5), <<4000001, 1000000>>, <<-4000001, 1000000>>>>

GoodOf(k) == CASE k = "len" -> <<Z(1), Z(-2)>> [] k = "rad" -> GoodRad [] k = "az" -> <<AngZero, A(3,5,4,5), A(-3,5,-4,5)>>
   [] k = "pol" -> GoodPol [] k = "lat" -> GoodLat [] k = "mu" -> GoodMu [] k = "nu" -> GoodNu
BadOf(k) == CASE k = "rad" -> BadRad [] k = "pol" -> BadPol [] k = "lat" -> BadLat [] k = "mu" -> BadMu
   [] k = "nu" -> BadNu [] OTHER -> <<>>
Cls == <<"RadialPos", "PolarPos", "CylindricalPos", "SphericalPos", "LonLatSphericalPos", "MathSphericalPos",
         "ProlateSpheroidalPos", "TwoSpherePos">>

\* Delta and the components share the unit, so that boundaries are exact
PU(c, i) == IF c = "ProlateSpheroidalPos"
            THEN LET un == UnitSets[At(<<1, 2, 5>>, i)] IN [len |-> un.len, ang |-> un.ang, delta |-> un.len[1]]
            ELSE U(i)
\* n good rows of a class; the i-th row varies every component at its own rate
GoodRows(c, n) == [i \in 1..n |-> [j \in DOMAIN Kinds(c) |-> At(GoodOf(Kinds(c)[j]), i + (j - 1) * (1 + (i \div 5)))]]
Put(rows, r, j, x) == [rows EXCEPT ![r][j] = x]
Lit(c, shape, rows, dl, un, mode, ctor) ==
  [op |-> "lit", d |-> "x", cls |-> c, shape |-> shape, delta |-> dl, comps |-> rows, u |-> un, mode |-> mode,
   ctor |-> ctor]
\* every bad value of every component: alone, or as one element of a batch
BadSteps(c, ui, mode) ==
  FlattenAll([j \in DOMAIN Kinds(c) |->
    [b \in DOMAIN BadOf(Kinds(c)[j]) |->
       LET x == BadOf(Kinds(c)[j])[b]
           q == ((b + ui) % 4)
       IN IF q = 0 THEN Lit(c, <<>>, Put(GoodRows(c, 1), 1, j, x), D, PU(c, ui + b), mode, "")
          ELSE IF q = 1 THEN Lit(c, <<3>>, Put(GoodRows(c, 3), 3, j, x), D, PU(c, ui + b), mode, "from_map")
          ELSE IF q = 2 THEN Lit(c, <<2, 2>>, Put(GoodRows(c, 4), 2, j, x), D, PU(c, ui + b), mode, "")
          ELSE Lit(c, <<3>>, Put(GoodRows(c, 3), 1, j, x), D, PU(c, ui + b), mode, "")]])
GoodSteps(c, ui, mode) ==
  << Lit(c, <<20>>, GoodRows(c, 20), D, PU(c, ui), mode, ""),
     Lit(c, <<2, 5>>, GoodRows(c, 10), D, PU(c, ui), mode, "from_map"),
     Lit(c, <<>>, GoodRows(c, 1), D, PU(c, ui), mode, "") >>
\* one good value of each component at a time in a scalar (boundaries are accepted one by one)
GoodOne(c, ui) ==
  FlattenAll([j \in DOMAIN Kinds(c) |->
    [b \in DOMAIN GoodOf(Kinds(c)[j]) |->
       Lit(c, <<>>, Put(GoodRows(c, 1), 1, j, GoodOf(Kinds(c)[j])[b]), D, PU(c, ui + b), "eager", "")]])
BadDelta == FlattenAll([k \in 1..3 |->
   << Lit("ProlateSpheroidalPos", <<>>, <<<<Z(9), Z(0), AngZero>>>>, At(<<R0, Z(-2), Z(-3)>>, k), U(k), At(<<"eager", "eager", "jit">>, k), "") >>])
HasAz(c) == \E j \in DOMAIN Kinds(c) : Kinds(c)[j] = "az"
AzIdx(c) == CHOOSE j \in DOMAIN Kinds(c) : Kinds(c)[j] = "az"
AzRows(c, azs) == [i \in DOMAIN azs |-> [GoodRows(c, Len(azs))[i] EXCEPT ![AzIdx(c)] = azs[i]]]
DegU == [len |-> <<"km">>, ang |-> <<"deg">>, time |-> "s"]
AzSteps(c) ==
  [i \in 1..5 |-> Lit(c, <<Len(GoodAz)>>, AzRows(c, GoodAz), D, PU(c, i), At(<<"eager", "jit", "eager", "vmap", "eager">>, i),
                      IF i = 3 THEN "from_map" ELSE "")]
  \o << [strict |-> 1] @@ Lit(c, <<28>>, AzRows(c, AzAxes), D, DegU, "eager", ""),
        [strict |-> 1] @@ Lit(c, <<>>, AzRows(c, <<<<R1, R0, 1>>>>), D, DegU, "eager", "") >>

\* the integer-typed literal must have integral components everywhere
IntRows(c) == [i \in 1..28 |-> [j \in DOMAIN Kinds(c) |->
   CASE Kinds(c)[j] = "az" -> AzAxes[i] [] Kinds(c)[j] \in {"rad", "len"} -> Z(1 + (i % 5))
     [] Kinds(c)[j] = "pol" -> At(<<AngZero, Ang90, Ang180>>, i) [] Kinds(c)[j] = "lat" -> At(<<AngZero, Ang90, AngNeg(Ang90)>>, i)
     [] Kinds(c)[j] = "mu" -> At(<<Z(4), Z(9)>>, i) [] Kinds(c)[j] = "nu" -> At(<<R0, Z(4), Z(-4)>>, i)]]
IntStep(c) == [strict |-> 1, dt |-> "int"] @@ Lit(c, <<28>>, IntRows(c), D, DegU, "eager", "")

Sc(id, i, prec, steps) == [id |-> id, base |-> BaseFor(i), mag |-> 0, prec |-> prec, steps |-> steps]
\* float32 rows: small denominators only
Good32(k) == CASE k = "pol" -> <<AngZero, Ang180, Ang90, A(3,5,4,5), A(-4,5,3,5)>>
   [] k = "lat" -> <<AngZero, Ang90, AngNeg(Ang90), A(3,5,4,5), AngNeg(A(4,5,3,5))>>
   [] k = "rad" -> <<Z(1), R0, <<5, 2>>, Z(10)>> [] OTHER -> GoodOf(k)
Rows32(c, n) == [i \in 1..n |-> [j \in DOMAIN Kinds(c) |-> At(Good32(Kinds(c)[j]), i + (j - 1) * (1 + (i \div 5)))]]
Steps32(c) == << Lit(c, <<20>>, Rows32(c, 20), D, PU(c, 1), "eager", ""), Lit(c, <<2, 5>>, Rows32(c, 10), D, PU(c, 1), "eager", "from_map") >>
Scenarios ==
  [i \in DOMAIN Cls |-> Sc("bad-" \o Cls[i], i, 64, BadSteps(Cls[i], i, "eager"))]
  \o [i \in DOMAIN Cls |-> Sc("badjit-" \o Cls[i], i, 64,
        LET b == BadSteps(Cls[i], i + 1, "jit") IN Clip(b, 1, 2))]
  \o [i \in DOMAIN Cls |-> Sc("badvmap-" \o Cls[i], i, 64,
        LET b == SelectSeq(BadSteps(Cls[i], i + 2, "vmap"), LAMBDA s : s.shape # <<>>) IN Clip(b, 1, 3))]
  \o [i \in DOMAIN Cls |-> Sc("good-" \o Cls[i], i, 64, GoodSteps(Cls[i], i, "eager") \o GoodOne(Cls[i], i))]
  \o [i \in DOMAIN Cls |-> Sc("int-" \o Cls[i], 1, 64, <<IntStep(Cls[i])>>)]
  \o [i \in DOMAIN Cls |-> Sc("goodjit-" \o Cls[i], i, 64, GoodSteps(Cls[i], i + 1, "jit"))]
  \o [i \in DOMAIN Cls |-> Sc("good32-" \o Cls[i], 1, 32, Steps32(Cls[i]) \o Clip(BadSteps(Cls[i], 1, "eager"), 1, 2))]
  \o FlattenAll([i \in DOMAIN Cls |-> IF HasAz(Cls[i])
         THEN <<Sc("az-" \o Cls[i], i, 64, Clip(AzSteps(Cls[i]), 1, 7))>> ELSE <<>>])
  \o << Sc("baddelta", 1, 64, BadDelta) >>
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
