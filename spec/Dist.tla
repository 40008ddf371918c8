-------------------------------- MODULE Dist --------------------------------
(* Distances written as lengths, parallaxes and distance moduli, and angles. *)
(* [k|->"dist", cls, kd, shape, el]; kd says which coordinate of an element   *)
(* the class is linear in: a length "len", an exact angle "ang", a number of *)
(* arcseconds "arc", magnitudes "mag".  An element keeps every coordinate    *)
(* that is known exactly:                                                   *)
(*   l: length,  l5: its fifth power,  a: angle,  s: arcseconds,  m: magnitude *)
(* Lengths are in astronomical units next to exact angles (l = cot a) and in *)
(* parsecs next to arcseconds and magnitudes (l = 1/s = 10^(m/5 + 1)).       *)
EXTENDS Space

NaA == <<NaR, NaR, 0>>
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN R1 ELSE IF n > 0 THEN RMul(Z(10), Pow10(n - 1)) ELSE RDiv(Pow10(n + 1), Z(10))
Pow10s(n) == IF n > 8 \/ n < -8 THEN NaR ELSE Pow10(n)
\* log10 of an exact power of ten
Logs == {i \in -8..8 : TRUE}
IsP10(l) == IsRat(l) /\ \E i \in Logs : Pow10(i) = l
Log10(l) == CHOOSE i \in Logs : Pow10(i) = l
RECURSIVE RPow(_, _)
RPow(r, n) == IF n = 0 THEN R1 ELSE IF n < 0 THEN RInv(RPow(r, -n)) ELSE RMul(r, RPow(r, n - 1))
SmallR(r) == IsRat(r) /\ Abs(r[1]) <= 40 /\ r[2] <= 40
Fifth(l) == IF SmallR(l) /\ Abs(l[1]) <= 10 /\ l[2] <= 6 THEN RPow(l, 5) ELSE NaR
ElL(l) == [l |-> l, l5 |-> Fifth(l), a |-> NaA, s |-> NaR, m |-> NaR]
ElA(a) == [l |-> IF AngRat(a) /\ S(a) # R0 THEN RDiv(C(a), S(a)) ELSE NaR, l5 |-> NaR, a |-> a, s |-> NaR, m |-> NaR]
ElS(s) == [l |-> RInv(s), l5 |-> Fifth(RInv(s)), a |-> NaA, s |-> s, m |-> NaR]
ElM(m) == [l |-> IF IsRat(m) /\ m[2] = 1 /\ m[1] % 5 = 0 THEN Pow10s(m[1] \div 5 + 1) ELSE NaR,
           l5 |-> IF IsRat(m) /\ m[2] = 1 THEN Pow10s(m[1] + 5) ELSE NaR, a |-> NaA, s |-> NaR, m |-> m]
El(kd, x) == CASE kd = "len" -> ElL(x) [] kd = "ang" -> ElA(x) [] kd = "arc" -> ElS(x) [] kd = "mag" -> ElM(x)
LinOf(kd, e) == CASE kd = "len" -> e.l [] kd = "ang" -> e.a [] kd = "arc" -> e.s [] kd = "mag" -> e.m
DistV(cls, kd, shape, xs) == [k |-> "dist", cls |-> cls, kd |-> kd, shape |-> shape, el |-> [i \in DOMAIN xs |-> El(kd, xs[i])]]
LinsOf(v) == [i \in DOMAIN v.el |-> LinOf(v.kd, v.el[i])]
NegLin(kd, x) == IF kd = "ang" THEN Wind(x) < 0 ELSE x[1] < 0

\* a parallax may not be negative, unless the caller says so
EvalLitD(st) ==
  IF Has(st, "bad") THEN Err
  ELSE IF st.cls = "Parallax" /\ ~Has(st, "nocheck") /\ \E i \in DOMAIN st.vals : NegLin(st.kd, st.vals[i]) THEN Err
  ELSE DistV(st.cls, st.kd, st.shape, st.vals)

\* the angle whose cotangent is l
AngOfLen(l) == LET h == RSqrt(RAdd(R1, RSqr(l)))
               IN IF SmallR(l) /\ h[2] # 0 THEN <<RDiv(l, h), RInv(h), 0>> ELSE NaA
ConvEl(e, to, sc) ==
  CASE to = "len" -> e
    [] to = "ang" -> IF AngRat(e.a) THEN e ELSE [e EXCEPT !.a = AngOfLen(e.l)]
    [] to = "arc" -> IF IsRat(e.s) THEN e ELSE [e EXCEPT !.s = IF IsRat(e.l) /\ RLeq(R1, e.l) THEN RInv(e.l) ELSE NaR]   \* tan 1" is 1" to eleven digits, tan 10" is not
    [] to = "mag" -> IF IsRat(e.m) \/ ~IsP10(e.l) \/ sc # "pc" THEN e ELSE [e EXCEPT !.m = Z(5 * Log10(e.l) - 5)]
KdOf(cls, sc, kd) == CASE cls = "Distance" -> "len" [] cls = "DistanceModulus" -> "mag"
                       [] cls = "Parallax" -> (IF sc = "AU" THEN "ang" ELSE "arc") [] OTHER -> kd
\* st.to a class; the physical length does not change
EvalDconv(st, v) ==
  LET kd == KdOf(st.to, st.sc, v.kd)
  IN [v EXCEPT !.cls = st.to, !.kd = kd, !.el = [i \in DOMAIN @ |-> ConvEl(@[i], kd, st.sc)]]

LinAdd(kd, x, y) == IF kd = "ang" THEN (IF AngRat(x) /\ AngRat(y) THEN AngAdd(x, y) ELSE NaA) ELSE RAdd(x, y)
LinNeg(kd, x) == IF kd = "ang" THEN (IF AngRat(x) THEN AngNeg(x) ELSE NaA) ELSE RNeg(x)
LinMul(kd, x, f) == IF kd = "ang" THEN (IF AngRat(x) /\ f[2] = 1 THEN AngTimes(x, f[1]) ELSE NaA) ELSE RMul(x, f)
LinZero(kd) == IF kd = "ang" THEN AngZero ELSE R0
\* 1: x < y, 0: equal, -1: x > y, 2: not known
CmpLin(kd, x, y) ==
  IF kd = "ang" THEN
     IF ~AngRat(x) \/ ~AngRat(y) THEN 2
     ELSE IF Wind(x) # Wind(y) THEN Sgn(Wind(y) - Wind(x))
     ELSE IF BaseEq(x, y) THEN 0 ELSE IF BaseLess(x, y) THEN 1 ELSE -1
  ELSE IF ~IsRat(x) \/ ~IsRat(y) THEN 2 ELSE RSgn(RSub(y, x))
\* equal values written differently may differ by a rounding
Truth(f, c, same) ==
  IF c = 2 \/ (c = 0 /\ ~same) THEN 2
  ELSE CASE f = "lt" -> (IF c = 1 THEN 1 ELSE 0) [] f = "le" -> (IF c >= 0 THEN 1 ELSE 0) [] f = "gt" -> (IF c = -1 THEN 1 ELSE 0)
         [] f = "ge" -> (IF c <= 0 THEN 1 ELSE 0) [] f = "eq" -> (IF c = 0 THEN 1 ELSE 0) [] f = "ne" -> (IF c = 0 THEN 0 ELSE 1)
Quarters(a) == IF AngRat(a) /\ (C(a) = R0 \/ S(a) = R0) THEN Z(Quad(a) + 4 * Wind(a)) ELSE NaR
CbrtI(n) == IF \E i \in 0..40 : i * i * i = n THEN CHOOSE i \in 0..40 : i * i * i = n ELSE -1
RCbrt(r) == IF ~IsRat(r) THEN NaR
            ELSE LET p == CbrtI(Abs(r[1]))
                     q == CbrtI(r[2])
                 IN IF p < 0 \/ q < 0 THEN <<RSgn(r), 0>> ELSE <<Sgn(r[1]) * p, q>>
\* numbers with dimensions in sixths: <<length, time, angle>>
Q6(shape, val, dim) == [k |-> "q6", shape |-> shape, val |-> val, dim |-> dim]
Num6(kd, x) == IF kd = "ang" THEN Quarters(x) ELSE x
Dim6(kd, n) == IF kd = "ang" THEN <<0, 0, n>> ELSE <<n, 0, 0>>
RECURSIVE LinSum(_, _, _)
LinSum(kd, xs, i) == IF i > Len(xs) THEN LinZero(kd) ELSE LinAdd(kd, xs[i], LinSum(kd, xs, i + 1))
LinBest(kd, xs, sg) == IF \E i, j \in DOMAIN xs : CmpLin(kd, xs[i], xs[j]) = 2 THEN (IF kd = "ang" THEN NaA ELSE NaR)
                       ELSE xs[CHOOSE i \in DOMAIN xs : \A j \in DOMAIN xs : CmpLin(kd, xs[i], xs[j]) * sg <= 0]
PowOf(kd, xs, sh, n) == Q6(sh, [i \in DOMAIN xs |-> LET r == Num6(kd, xs[i]) IN IF SmallR(r) THEN RPow(r, n) ELSE NaR], Dim6(kd, 6 * n))
EvalDarith(st, env) ==
  LET v == env[st.a[1]]
      kd == v.kd
      xs == LinsOf(v)
      res(ys) == [v EXCEPT !.el = [i \in DOMAIN ys |-> El(kd, ys[i])]]
      chk(r) == IF r.cls = "Parallax" /\ \E i \in DOMAIN r.el : LET x == LinOf(r.kd, r.el[i]) IN (r.kd # "ang" \/ AngRat(x)) /\ NegLin(r.kd, x) THEN Err ELSE r
      two(f(_, _)) == LET y == env[st.a[2]]
                          sh == BShape2(v.shape, y.shape)
                          p == Pick(xs, BroadcastTo(v.shape, sh).src)
                          q == Pick(LinsOf(y), BroadcastTo(y.shape, sh).src)
                      IN [sh |-> sh, xs |-> [i \in DOMAIN p |-> f(p[i], q[i])]]
  IN CASE st.f \in {"add", "sub"} ->
            LET t == two(LAMBDA x, y : IF st.f = "add" THEN LinAdd(kd, x, y) ELSE LinAdd(kd, x, LinNeg(kd, y)))
                y == env[st.a[2]]
            IN chk([DistV(v.cls, kd, t.sh, t.xs) EXCEPT !.cls = IF y.cls = v.cls THEN @ ELSE "any"])
       [] st.f = "neg" -> chk(res([i \in DOMAIN xs |-> LinNeg(kd, xs[i])]))
       [] st.f = "abs" -> res([i \in DOMAIN xs |-> IF (kd # "ang" \/ AngRat(xs[i])) /\ NegLin(kd, xs[i]) THEN LinNeg(kd, xs[i]) ELSE xs[i]])
       [] st.f = "mul" -> chk(res([i \in DOMAIN xs |-> LinMul(kd, xs[i], st.s)]))
       [] st.f = "div" -> chk(res([i \in DOMAIN xs |-> LinMul(kd, xs[i], RInv(st.s))]))
       [] st.f \in {"lt", "le", "gt", "ge", "eq", "ne"} ->
            LET t == two(LAMBDA x, y : Truth(st.f, CmpLin(kd, x, y), st.a[1] = st.a[2]))
            IN [k |-> "bool", shape |-> t.sh, val |-> t.xs]
       [] st.f = "sum" -> [v EXCEPT !.shape = <<>>, !.el = << El(kd, LinSum(kd, xs, 1)) >>]
       [] st.f = "mean" -> [v EXCEPT !.shape = <<>>, !.el = << El(kd, LinMul(kd, LinSum(kd, xs, 1), <<1, Len(xs)>>)) >>]
       [] st.f = "max" -> [v EXCEPT !.shape = <<>>, !.el = << El(kd, LinBest(kd, xs, 1)) >>]
       [] st.f = "min" -> [v EXCEPT !.shape = <<>>, !.el = << El(kd, LinBest(kd, xs, -1)) >>]
       [] st.f = "stack" -> [v EXCEPT !.shape = <<2>> \o @, !.el = @ \o env[st.a[2]].el, !.cls = IF env[st.a[2]].cls = @ THEN @ ELSE "any"]
       [] st.f = "pow" -> PowOf(kd, xs, v.shape, st.n)
       [] st.f = "sqrt" -> Q6(v.shape, [i \in DOMAIN xs |-> RSqrt(Num6(kd, xs[i]))], Dim6(kd, 3))
       [] st.f = "cbrt" -> Q6(v.shape, [i \in DOMAIN xs |-> RCbrt(Num6(kd, xs[i]))], Dim6(kd, 2))
       [] st.f = "dot" -> LET t == two(LAMBDA x, y : LET p == Num6(kd, x) q == Num6(kd, y) IN RMul(p, q))
                          IN Q6(<<>>, << RSum(t.xs) >>, Dim6(kd, 12))
       [] st.f = "sin" -> Q6(v.shape, [i \in DOMAIN xs |-> S(xs[i])], <<0, 0, 0>>)
       [] st.f = "cos" -> Q6(v.shape, [i \in DOMAIN xs |-> C(xs[i])], <<0, 0, 0>>)
       [] st.f = "tan" -> Q6(v.shape, [i \in DOMAIN xs |-> RDiv(S(xs[i]), C(xs[i]))], <<0, 0, 0>>)
       [] st.f \in {"mulq", "divq"} ->
            LET t == env[st.a[2]].val[1]
            IN Q6(v.shape, [i \in DOMAIN xs |-> LET r == Num6(kd, xs[i]) IN IF st.f = "mulq" THEN RMul(r, t) ELSE RDiv(r, t)],
                  LET d == Dim6(kd, 6) IN [d EXCEPT ![2] = IF st.f = "mulq" THEN 6 ELSE -6])
Fine(r, prec) == IF prec = 32 THEN IsRat(r) /\ r[2] <= 60 /\ Abs(r[1]) <= 1000 ELSE Sharp(r)
CheckDist(v, o, prec) ==
  IF o.k # "dist" THEN {"kind"}
  ELSE (IF v.cls \in {"any", o.cls} THEN {} ELSE {"class"})
       \cup (IF o.shape = v.shape /\ SameLen(o.el, v.el) THEN {} ELSE {"shape"})
       \cup (IF o.kd = (IF v.kd = "arc" THEN "ang" ELSE v.kd) THEN {} ELSE {"dimension"})
       \cup (IF ~SameLen(o.el, v.el) THEN {}
             ELSE IF \A i \in DOMAIN v.el :
                  LET e == v.el[i]
                      w == o.el[i]
                  IN /\ (Fine(e.l, prec) /\ v.cls # "Angle") => w.l = e.l
                     /\ (Fine(e.l5, prec) /\ v.cls # "Angle") => w.l5 = e.l5
                     /\ (Fine(e.m, prec) /\ v.kd = "mag") => w.m = e.m
                     /\ (Fine(e.s, prec) /\ v.kd = "arc") => w.s = e.s
                     /\ (AngRat(e.a) /\ Fine(C(e.a), prec) /\ Fine(S(e.a), prec) /\ v.kd = "ang") =>
                          w.a[1] = C(e.a) /\ w.a[2] = S(e.a) /\ w.a[3] \div 360 = Wind(e.a)
             THEN {} ELSE {"value"})
CheckQ6(v, o) ==
  (IF o.k \in {"q", "dist"} THEN {} ELSE {"kind"})
  \cup (IF o.shape = v.shape /\ SameLen(o.val, v.val) THEN {} ELSE {"shape"})
  \cup (IF o.dim6 = v.dim THEN {} ELSE {"dimension"})
  \cup (IF SameLen(o.val, v.val) /\ ~EqPt(v.val, o.val) THEN {"value"} ELSE {})
=============================================================================
