------------------------------ MODULE GenVTime ------------------------------
(* Rates times times: every class, operand order, signs, broadcasting.       *)
EXTENDS Shapes, IOUtils
Thorough == IOEnv.TIER = "thorough"
SEED == atoi(IOEnv.SEED)
S0(id, i, mag, prec, steps) == [id |-> id, base |-> BaseFor(i), mag |-> mag, prec |-> prec, steps |-> steps]
\* angular rates are exact angles per unit time, so that integer times give exact angles
SmallAng == <<AngZero, A(4,5,3,5), A(3,5,4,5)>>
BigAng == <<A(-3,5,4,5), <<<<4,5>>, <<-3,5>>, -1>>, <<<<3,5>>, <<4,5>>, 1>>, Ang270, A(4,5,3,5)>>
RKinds(c) == IF c \in {"CartesianVelND", "CartesianAccND"} THEN <<"len", "len", "len">> ELSE Kinds(PosOfDif(c))
RateEl(kd, l) ==
  CASE kd = "len" -> Rn(5 * l - 13, (l % 4) + 1)
    [] kd = "rad" -> Rn(2 * l + 1, (l % 3) + 1)
    [] kd = "az" -> At(BigAng, l)
    [] kd = "pol" -> At(SmallAng, l)
    [] kd = "lat" -> At(<<AngZero, A(4,5,3,5), <<<<4,5>>, <<-3,5>>, -1>>>>, l)
    [] kd \in {"mu", "nu"} -> Rn(3 * l - 5, (l % 2) + 1)
RRows(c, n, k) == [e \in 1..n |-> [j \in DOMAIN RKinds(c) |-> RateEl(RKinds(c)[j], k + e + 2 * j)]]
LitR(d, c, shape, k, un) ==
  LET b == [op |-> "lit", d |-> d, cls |-> c, shape |-> shape, comps |-> RRows(c, SizeOf(shape), k), u |-> un]
  IN IF c \in {"CartesianVelND", "CartesianAccND"} THEN [n |-> 3] @@ b ELSE b
LitT(d, kind, shape, vals, un) == [op |-> "litq", d |-> d, shape |-> shape, vals |-> vals, kind |-> kind, u |-> un]
VT(d, v, t, form, mode) == [op |-> "vtime", d |-> d, a |-> <<v, t>>, form |-> form, mode |-> mode]
TUnits == <<"s", "min", "yr", "h", "Myr">>
T2Units == <<"s2", "min2", "yr2", "h2", "Myr2">>
Ti(n) == [i \in DOMAIN n |-> Z(n[i])]
\* form: lax.mul takes either operand order for accelerations
FormA(c, k) == LET f == At(<<"op", "lax", "laxr">>, k) IN IF f = "laxr" /\ ~IsAccCls(c) THEN "op" ELSE f
HasAng(c) == \E i \in DOMAIN RKinds(c) : IsAngKind(RKinds(c)[i])
FracT(c) == IF HasAng(c) THEN Ti(<<1, 1, 2>>) ELSE <<<<1, 2>>, <<-3, 4>>, <<5, 2>>>>
Body(c, i, acc) ==
  LET K(n) == IF acc THEN "time2" ELSE "time" IN
  << LitR("v", c, <<3>>, i, U(i)), LitT("t", "time", <<3>>, Ti(<<1, 2, 1>>), At(TUnits, i)),
     VT("r", "v", "t", "op", "eager"), VT("r", "v", "t", FormA(c, i + 1), "eager"), VT("r", "v", "t", FormA(c, i + 2), "jit"),
     LitT("s", "time", <<>>, <<Z(2)>>, At(TUnits, i + 1)), VT("r", "v", "s", FormA(c, i), "eager"), VT("r", "v", "s", "op", "eager"),
     LitT("z", "time", <<>>, <<R0>>, At(TUnits, i + 2)), VT("r", "v", "z", "op", "eager"),
     LitT("n", "time", <<>>, <<Z(-1)>>, At(TUnits, i)), VT("r", "v", "n", "op", "eager"),
     LitT("f", "time", <<3>>, FracT(c), At(TUnits, i)), VT("r", "v", "f", FormA(c, i), "eager"),
     LitR("w", c, <<2, 1>>, i + 3, U(i + 2)), VT("r", "w", "t", "op", "eager"), VT("r", "w", "t", FormA(c, i + 2), "eager"),
     LitR("u", c, <<>>, i + 5, U(i + 1)), VT("r", "u", "t", "op", "eager"), VT("r", "u", "s", FormA(c, i + 1), "eager"),
     LitT("b", "time", <<2, 3>>, Ti(<<1, 2, 1, 1, 1, 2>>), At(TUnits, i + 3)), VT("r", "v", "b", "op", "eager"), VT("r", "u", "b", FormA(c, i + 2), "eager") >>
  \o (IF acc THEN
       << LitT("q", "time2", <<3>>, Ti(<<1, 2, 1>>), At(T2Units, i)), VT("r", "v", "q", "op", "eager"), VT("r", "v", "q", FormA(c, i + 2), "eager"),
          LitT("q", "time2", <<>>, <<Z(1)>>, At(T2Units, i + 1)), VT("r", "v", "q", FormA(c, i), "eager"), VT("r", "u", "q", "op", "jit"),
          \* twice by a time is once by its square
          VT("x", "v", "s", "op", "eager"), VT("y", "x", "z", "op", "eager"), VT("y", "x", "n", "op", "eager"),
          LitT("q", "time2", <<2, 3>>, Ti(<<1, 2, 1, 2, 1, 1>>), At(T2Units, i)), VT("r", "v", "q", "op", "eager") >>
      ELSE <<>>)
VCls == AllVel \o <<"CartesianVelND">>
ACls == AllAcc \o <<"CartesianAccND">>
NI == IF Thorough THEN 6 ELSE 1
ScV == FlattenAll([r \in 1..NI |-> [i \in DOMAIN VCls |-> S0("vt" \o ToString(r) \o "-" \o VCls[i], i + r + SEED - 2, At(<<0, 3, -4>>, i + r), 64, Body(VCls[i], i + 3 * r, FALSE))]])
ScA == FlattenAll([r \in 1..NI |-> [i \in DOMAIN ACls |-> S0("at" \o ToString(r) \o "-" \o ACls[i], i + r + SEED - 2, At(<<0, 3, -4>>, i + r), 64, Body(ACls[i], i + 3 * r, TRUE))]])
Scenarios == ScV \o ScA
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
