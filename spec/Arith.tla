------------------------------- MODULE Arith -------------------------------
(* Vector arithmetic: on positions it is the arithmetic of the Cartesian    *)
(* points, whatever the representation; on velocities and accelerations it  *)
(* is componentwise.                                                        *)
EXTENDS Api

\* elements of a batch, in order, and the way shapes stretch to each other
MaxI(a, b) == IF a > b THEN a ELSE b
RECURSIVE CoordR(_, _, _)
CoordR(k0, shape, i) ==      \* coordinates of axes 1..i
  IF i = 0 THEN <<>> ELSE Append(CoordR(k0 \div shape[i], shape, i - 1), k0 % shape[i])
Coord(k, shape) == CoordR(k - 1, shape, Len(shape))
RECURSIVE LinR(_, _, _)
LinR(c, shape, i) == IF i = 0 THEN 0 ELSE LinR(c, shape, i - 1) * shape[i] + c[i]
Lin(c, shape) == LinR(c, shape, Len(shape)) + 1
Pick(s, src) == [k \in DOMAIN src |-> s[src[k]]]
BroadcastTo(shape, new) ==
  LET off == Len(new) - Len(shape)
      src(k) == LET c == Coord(k, new) IN Lin([i \in DOMAIN shape |-> IF shape[i] = 1 THEN 0 ELSE c[i + off]], shape)
  IN [shape |-> new, src |-> [k \in 1..SizeOf(new) |-> src(k)]]
BShape2(a, b) ==
  LET n == MaxI(Len(a), Len(b))
      g(s, i) == LET j == i - (n - Len(s)) IN IF j < 1 THEN 1 ELSE s[j]
  IN [i \in 1..n |-> IF g(a, i) = 1 THEN g(b, i) ELSE g(a, i)]

LenDim == <<1, 0, 0>>
SpdDim == <<1, -1, 0>>
AccDim == <<1, -2, 0>>
QtyD(shape, val, kind, dim) == [k |-> "q", shape |-> shape, val |-> val, kind |-> kind, dim |-> dim]

\* a result that a representation cannot express (a negative radius on a line) is refused
Place(cls, shape, pts, delta) ==
  IF cls = "RadialPos" /\ \E i \in DOMAIN pts : pts[i][1][1] < 0 THEN Err
  ELSE Pos(cls, shape, pts, delta)
PDim(v) == IF ND(v.cls) THEN Len(v.pts[1]) ELSE DimOf(v.cls)
\* the factors of a step, stretched to a shape
FactorSh(st, x) == IF Has(st, "ss") THEN BShape2(x.shape, st.sshape) ELSE x.shape
Factors(st, sh) == LET m == IF Has(st, "ss") THEN Pick(st.ss, BroadcastTo(st.sshape, sh).src) ELSE [i \in 1..SizeOf(sh) |-> st.s]
                   IN IF st.f = "div" THEN [i \in DOMAIN m |-> RInv(m[i])] ELSE m
EvalArithPos(st, env) ==
  LET x == env[st.a[1]]
  IN CASE st.f \in {"add", "sub"} ->
            LET y == env[st.a[2]]
                sh == BShape2(x.shape, y.shape)
                p == Pick(x.pts, BroadcastTo(x.shape, sh).src)
                q == Pick(y.pts, BroadcastTo(y.shape, sh).src)
            IN Place(x.cls, sh, [i \in DOMAIN p |-> IF st.f = "add" THEN VAdd(p[i], q[i]) ELSE VSub(p[i], q[i])], x.delta)
       [] st.f = "neg" -> Place(x.cls, x.shape, [i \in DOMAIN x.pts |-> VNeg(x.pts[i])], x.delta)
       [] st.f = "pos" -> x
       [] st.f \in {"mul", "div"} ->
            LET sh == FactorSh(st, x)
                fs == Factors(st, sh)
                p == Pick(x.pts, BroadcastTo(x.shape, sh).src)
            IN Place(x.cls, sh, [i \in DOMAIN p |-> VScale(fs[i], p[i])], x.delta)
       [] st.f \in {"norm", "abs"} -> QtyD(x.shape, [i \in DOMAIN x.pts |-> NormOf(x.pts[i])], "len", LenDim)
EvalArithDif(st, env) ==
  LET x == env[st.a[1]]
      res(cmp) == Dif(x.k, x.cls, x.shape, cmp, <<>>, x.delta)
  IN CASE st.f \in {"add", "sub"} ->
            LET y == env[st.a[2]]
                sh == BShape2(x.shape, y.shape)
                p == Pick(x.cmp, BroadcastTo(x.shape, sh).src)
                q == Pick(y.cmp, BroadcastTo(y.shape, sh).src)
            IN Dif(x.k, x.cls, sh, [i \in DOMAIN p |-> IF st.f = "add" THEN VAdd(p[i], q[i]) ELSE VSub(p[i], q[i])], <<>>, x.delta)
       [] st.f = "neg" -> res([i \in DOMAIN x.cmp |-> VNeg(x.cmp[i])])
       [] st.f = "pos" -> x
       [] st.f = "mul" -> res([i \in DOMAIN x.cmp |-> VScale(st.s, x.cmp[i])])
       [] st.f \in {"norm", "abs"} ->
            QtyD(x.shape, [i \in DOMAIN x.cmp |-> NormOf(x.cmp[i])], "len/t", IF x.k = "vel" THEN SpdDim ELSE AccDim)
EvalArith(st, env) == IF env[st.a[1]].k = "pos" THEN EvalArithPos(st, env) ELSE EvalArithDif(st, env)
=============================================================================
