------------------------------- MODULE Space -------------------------------
(* Collections of vectors that belong together: a position, a velocity and   *)
(* an acceleration, kept under the name of their dimension.                  *)
(* [k|->"space", shape, m: name -> vector]; members may be stored with their  *)
(* own shapes, the shape of the collection is their common one.             *)
EXTENDS Four

SpOrd == <<"length", "speed", "acceleration">>
SpName(k) == IF k = "velocity" THEN "speed" ELSE k
SpKeys(s) == SelectSeq(SpOrd, LAMBDA k : k \in DOMAIN s.m)
\* every member at the common shape
SpFull(s) == [s EXCEPT !.m = [d \in DOMAIN @ |-> Spread2(@[d], s.shape)]]
RECURSIVE SpShape(_, _, _)
SpShape(vs, i, acc) == IF i > Len(vs) THEN acc ELSE SpShape(vs, i + 1, BShape2(acc, vs[i].shape))
MkSp(ks, vs) ==
  LET names == [i \in DOMAIN ks |-> SpName(ks[i])]
  IN IF \E i, j \in DOMAIN names : i < j /\ names[i] = names[j] THEN Err
     ELSE IF \E i, j \in DOMAIN vs : ~BOk(vs[i].shape, vs[j].shape) THEN Err
     ELSE [k |-> "space", shape |-> SpShape(vs, 1, <<>>),
           m |-> [n \in Range(names) |-> vs[CHOOSE i \in DOMAIN names : names[i] = n]]]
EvalLitSp(st, env) == MkSp(st.keys, [i \in DOMAIN st.a |-> env[st.a[i]]])

\* every member is re-expressed at the collection's own position
EvalRepSp(st, s) ==
  LET f == SpFull(s)
      ks == DOMAIN s.m
      q == f.m["length"]
      rep(d) == CASE d = "length" -> EvalRep(st, q)
                  [] d = "speed" -> EvalRepDif([cls |-> VelOfPos(st.cls)], f.m[d], q)
                  [] d = "acceleration" -> EvalRepDif([cls |-> AccOfPos(st.cls)], f.m[d], q)
  IN IF st.cls = "Space" THEN s
     ELSE IF "length" \notin ks \/ ("acceleration" \in ks /\ "speed" \notin ks) THEN Err
     ELSE [f EXCEPT !.m = [d \in ks |-> rep(d)]]
\* the action-angle-like form: rho, z and their rates, and sqrt(2 |Lz|) (cos phi, sin phi),
\* of which the signed squares are compared
SgnSq(r) == IF ~IsRat(r) THEN NaR ELSE IF r[1] < 0 THEN RNeg(RSqr(r)) ELSE RSqr(r)
SpCyl(s) == EvalRepSp([cls |-> "CylindricalPos"], [s EXCEPT !.m = [d \in {"length", "speed"} |-> @[d]]])
EvalPP(s) ==
  LET c == SpCyl(s)
      q == c.m["length"]
      v == c.m["speed"]
      n == DOMAIN q.pts
      rho2(i) == RAdd(RSqr(q.pts[i][1]), RSqr(q.pts[i][2]))
      L2(i) == RMul(Z(2), RAbs(RMul(rho2(i), v.cmp[i][2])))
      part(i, j) == RDiv(RMul(L2(i), SgnSq(q.pts[i][j])), rho2(i))
      len(f(_)) == QtyD(s.shape, [i \in n |-> f(i)], "len", LenDim)
      spd(j) == QtyD(s.shape, [i \in n |-> v.cmp[i][j]], "len/t", SpdDim)
      pp(j) == QtyD(s.shape, [i \in n |-> part(i, j)], "any", <<2, -1, 1>>)
  IN Tup(<< len(LAMBDA i : RSqrt(rho2(i))), pp(1), len(LAMBDA i : q.pts[i][3]), spd(1), pp(2), spd(3) >>)
\* and back: the sense of the rotation is lost
EvalPPBack(s) ==
  LET c == SpCyl(s)
  IN [c EXCEPT !.m["speed"].cmp = [i \in DOMAIN @ |-> <<@[i][1], RAbs(@[i][2]), @[i][3]>>], !.m["speed"].cart = [i \in DOMAIN @ |-> NaRs(3)]]
SpCodes(s) == [i \in DOMAIN SpKeys(s) |-> CASE SpKeys(s)[i] = "length" -> 1 [] SpKeys(s)[i] = "speed" -> 2 [] OTHER -> 3]
EvalSpGet(st, env) ==
  LET x == env[st.a[1]]
  IN CASE st.f = "member" -> IF SpName(st.key) \notin DOMAIN x.m THEN Err ELSE x.m[SpName(st.key)]
       [] st.f = "keys" -> [k |-> "ints", val |-> SpCodes(x)]
       [] st.f = "same" -> x
       [] st.f = "frompos" -> MkSp(<<"length">>, <<x>>)
       [] st.f = "with" -> LET ks == SetToSeq(DOMAIN x.m \cup {SpName(st.key)})
                           IN MkSp(ks, [i \in DOMAIN ks |-> IF ks[i] = SpName(st.key) THEN env[st.a[2]] ELSE x.m[ks[i]]])
       [] st.f = "pp" -> IF {"length", "speed"} \subseteq DOMAIN x.m THEN EvalPP(x) ELSE Err
       [] st.f = "ppback" -> IF {"length", "speed"} \subseteq DOMAIN x.m THEN EvalPPBack(x) ELSE Err
EvalNegSp(st, s) == [s EXCEPT !.m = [d \in DOMAIN @ |-> EvalArith([st EXCEPT !.a = <<"x">>], [x |-> @[d]])]]
SpEqT(t) == IF \E i \in DOMAIN t : t[i] = 0 THEN 0 ELSE IF \E i \in DOMAIN t : t[i] = 2 THEN 2 ELSE 1
EvalEqSp(st, x, y) ==
  IF DOMAIN x.m # DOMAIN y.m THEN [k |-> "bool", shape |-> <<>>, val |-> <<0>>]
  ELSE LET ks == SpKeys(x)
           sh == BShape2(x.shape, y.shape)
           e == [i \in DOMAIN ks |-> LET b == EvalEq([st EXCEPT !.f = "eq"], x.m[ks[i]], y.m[ks[i]]) IN Pick(b.val, BroadcastTo(b.shape, sh).src)]
       IN [k |-> "bool", shape |-> sh, val |-> [i \in 1..SizeOf(sh) |-> SpEqT([j \in DOMAIN ks |-> e[j][i]])]]
RECURSIVE SumTo(_, _)
SumTo(t, i) == IF i < 1 THEN 0 ELSE t[i] + SumTo(t, i - 1)
SpWant(st, s) ==
  LET ks == SpKeys(s)
      dims(k) == CompDims(s.m[k].cls, s.m[k].k)
      ofs(i) == SumTo([j \in DOMAIN ks |-> Len(dims(ks[j]))], i - 1)
      one(i) == IF st.how # "consistent" THEN WantUnits(st, s.m[ks[i]])
                ELSE [j \in DOMAIN dims(ks[i]) |-> "=" \o ToString(ofs(i) + FirstOf(dims(ks[i]), j))]
  IN FlattenSeq([i \in DOMAIN ks |-> one(i)])
SpreadObs(o, sh) ==
  LET src == BroadcastTo(o.shape, sh).src
      w == [o EXCEPT !.shape = sh, !.comps = Pick(@, src)]
  IN IF Has(o, "den") THEN [w EXCEPT !.den = Pick(@, src)] ELSE w
CheckSp(v, o, prec) ==
  IF o.k # "space" THEN {"kind"}
  ELSE IF DOMAIN o.m # DOMAIN v.m THEN {"members"}
  ELSE (IF o.shape = v.shape THEN {} ELSE {"shape"})
       \cup UNION { LET e == Spread2(v.m[d], v.shape)
                        w == o.m[d]
                    IN IF w.k # e.k THEN {"kind"}
                       ELSE IF ~BOk(w.shape, v.shape) \/ BShape2(w.shape, v.shape) # v.shape \/ SizeOf(w.shape) # Len(w.comps) THEN {"size"}
                       ELSE IF e.k = "pos" THEN CheckPos(e, SpreadObs(w, v.shape), prec) ELSE CheckDif(e, SpreadObs(w, v.shape), prec)
                    : d \in DOMAIN v.m }
=============================================================================
