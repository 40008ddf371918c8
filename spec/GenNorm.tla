------------------------------ MODULE GenNorm ------------------------------
(* The normalising keyword constructors: raw (radius, polar, azimuth) in any *)
(* combination of signs and windings denote exactly the decoded point.      *)
EXTENDS Lat, IOUtils
NCls == <<"SphericalPos", "MathSphericalPos", "LonLatSphericalPos">>
Wound(as, ks) == FlattenAll([k \in DOMAIN ks |-> [i \in DOMAIN as |-> <<as[i][1], as[i][2], ks[k]>>]])
Pol == Wound(Az12, <<0, -1, 1, 2, -2>>)                       \* 60: every multiple of 90 deg included
Lat270 == SelectSeq(Wound(Az12, <<0, -1>>), LAMBDA a : IF a[3] = 0 THEN ~(a[1][1] > 0 /\ a[2][1] < 0)
                                                       ELSE ~(a[1][1] > 0 /\ a[2][1] >= 0) /\ a # <<R1, R0, -1>>)
Azs == Wound(AzFew, <<0, 1, -1, -2>>)
Rs == <<Z(5), Z(-5), <<5, 2>>, Z(-1), R0, <<-15, 4>>, Z(2)>>
Row(c, i) ==
  LET po == At(IF c = "LonLatSphericalPos" THEN Lat270 ELSE Pol, i)
      az == At(Azs, 1 + 5 * i + (i \div 32))
      r == At(Rs, 1 + i + (i \div 60))
  IN CASE c = "SphericalPos" -> <<r, po, az>> [] c = "MathSphericalPos" -> <<r, az, po>> [] OTHER -> <<az, po, r>>
Rows(c, n, off) == [i \in 1..n |-> Row(c, i + off)]
Lit(d, c, shape, rows, un, mode) ==
  [op |-> "lit", d |-> d, cls |-> c, shape |-> shape, comps |-> rows, u |-> un, mode |-> mode, ctor |-> "from_kw"]
Rep(d, a, t) == [op |-> "rep", d |-> d, a |-> <<a>>, cls |-> t, mode |-> "eager"]
DegU == [len |-> <<"km">>, ang |-> <<"deg">>, time |-> "s"]
\* axis directions in exact degrees: the azimuth must land strictly below 360
AxRows(c) == [i \in 1..80 |->
  LET po == At(IF c = "LonLatSphericalPos" THEN SelectSeq(Lat270, LAMBDA a : a[1][1] = 0 \/ a[2][1] = 0) ELSE Wound(Axes4, <<0, -1, 1>>), i)
      az == At(Wound(Axes4, <<0, 1, -1>>), 1 + (i \div 7) + i)
      r == At(<<Z(2), Z(-3)>>, 1 + i + (i \div 12))
  IN CASE c = "SphericalPos" -> <<r, po, az>> [] c = "MathSphericalPos" -> <<r, az, po>> [] OTHER -> <<az, po, r>>]
\* broadcastable component shapes
BC(c) == LET r == Rows(c, 1, 3)[1]
             ri == CASE c = "LonLatSphericalPos" -> 3 [] OTHER -> 1
         IN [bshape |-> IF ri = 1 THEN <<<<3>>, <<>>, <<>>>> ELSE <<<<>>, <<>>, <<3>>>>]
            @@ Lit("x", c, <<3>>, [i \in 1..3 |-> [r EXCEPT ![ri] = At(<<Z(-2), Z(3), Z(-5)>>, i)]], U(2), "eager")
BC2(c) == LET r == Rows(c, 1, 7)[1]
          IN [bshape |-> <<<<2, 1>>, <<3>>, <<1, 3>>>>]
             @@ Lit("x", c, <<2, 3>>, [i \in 1..6 |-> << At(<<Row(c, 3)[1], Row(c, 4)[1]>>, 1 + ((i - 1) \div 3)),
                      Row(c, 10 + ((i - 1) % 3))[2], Row(c, 30 + ((i - 1) % 3))[3] >>], U(3), "eager")
\* a degree from the axis and from the limits of every fold
Near == A(14399, 14401, 240, 14401)
Nears(k) == FlattenAll([i \in DOMAIN Axes4 |-> <<AngAdd(Axes4[i], Near), AngSub(Axes4[i], Near)>>])
NearRows(c) ==
  LET ok(a) == c # "LonLatSphericalPos" \/ \E i \in DOMAIN Lat270 : Lat270[i][3] = a[3] /\ Lat270[i][1][1] * a[1][1] > 0 /\ Lat270[i][2][1] * a[2][1] > 0
      ps == SelectSeq(Wound(Nears(1), <<0, -1, 1>>), ok)
  IN [i \in DOMAIN ps |->
       LET po == ps[i]
           az == At(AzFew, i)
           r == At(<<Z(2), Z(-3), Z(5)>>, i)
       IN CASE c = "SphericalPos" -> <<r, po, az>> [] c = "MathSphericalPos" -> <<r, az, po>> [] OTHER -> <<az, po, r>>]
Sc(id, i, mag, prec, steps) == [id |-> id, base |-> BaseFor(i), mag |-> mag, prec |-> prec, steps |-> steps]
N == IF IOEnv.TIER = "thorough" THEN 2000 ELSE 420
Scenarios ==
  FlattenAll([c \in DOMAIN NCls |->
    [i \in 1..5 |-> Sc("norm-" \o NCls[c] \o ToString(i), i, At(Mags, i), 64,
        << Lit("x", NCls[c], <<N>>, Rows(NCls[c], N, 17 * i), U(i), "eager"), Rep("y", "x", "CartesianPos3D"),
           Lit("x", NCls[c], <<2, 30>>, Rows(NCls[c], 60, 600 + i), U(i + 1), At(<<"jit", "vmap", "eager", "jit", "jitvmap">>, i)),
           Rep("y", "x", At(<<"SphericalPos", "LonLatSphericalPos", "MathSphericalPos", "CylindricalPos">>, i + c)) >>)]
    \o << Sc("axis-" \o NCls[c], 1, 0, 64, <<[strict |-> 1] @@ Lit("x", NCls[c], <<80>>, AxRows(NCls[c]), DegU, "eager")>>),
          Sc("near-" \o NCls[c], 2, 0, 64, <<Lit("x", NCls[c], <<Len(NearRows(NCls[c]))>>, NearRows(NCls[c]), U(c), "eager"), Rep("y", "x", "CartesianPos3D")>>),
          Sc("bcast-" \o NCls[c], 2, 0, 64, <<BC(NCls[c]), BC2(NCls[c])>>),
          Sc("scal-" \o NCls[c], 3, 0, 64, [k \in 1..12 |-> Lit("x", NCls[c], <<>>, Rows(NCls[c], 1, 37 * k), U(k), "eager")]),
          Sc("f32-" \o NCls[c], 1, 0, 32, <<Lit("x", NCls[c], <<60>>, Rows(NCls[c], 60, 5), DegU, "eager")>>) >>])
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
