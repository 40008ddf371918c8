-------------------------------- MODULE Four --------------------------------
(* Spacetime events: a time and a position with a speed of light.            *)
(* [k|->"fv", shape, t (flat), tshape, q (a position), c, cstd]; cstd: the    *)
(* speed of light is the standard one, c its value where it is rational in   *)
(* the base units.                                                          *)
EXTENDS Ops

\* the time of every element
TAll(v) == Pick(v.t, BroadcastTo(v.tshape, v.shape).src)
BOk(a, b) ==
  LET n == MaxI(Len(a), Len(b))
      g(s, i) == LET j == i - (n - Len(s)) IN IF j < 1 THEN 1 ELSE s[j]
  IN \A i \in 1..n : g(a, i) = g(b, i) \/ g(a, i) = 1 \/ g(b, i) = 1
\* a step may say that the standard speed of light is 1 in its base units ("one")
StdC(st) == IF Has(st, "one") THEN R1 ELSE NaR
EvalLitFv(st, env) ==
  LET t == env[st.a[1]]
      q == IF env[st.a[2]].k = "q" THEN QAsPos(env[st.a[2]]) ELSE env[st.a[2]]
  IN IF t.kind # "time" \/ q.k # "pos" \/ DimOf(q.cls) # 3 THEN Err
     \* the time may be shared by the positions, not the other way round
     ELSE IF ~BOk(t.shape, q.shape) \/ BShape2(t.shape, q.shape) # q.shape THEN Err
     ELSE Fv(q.shape, t.val, t.shape, q, IF Has(st, "c") THEN st.c ELSE StdC(st), IF Has(st, "c") THEN 0 ELSE 1)

WithTQ(x, tall, q) == [x EXCEPT !.t = tall, !.tshape = q.shape, !.shape = q.shape, !.q = q]
Interval2(x) == LET ts == TAll(x)
                IN [i \in DOMAIN ts |-> RSub(RSqr(RMul(x.c, ts[i])), Norm2(x.q.pts[i]))]
\* the square root of a rounded zero is not pinned down
SqrtPart(r, pos) == IF ~IsRat(r) \/ r = R0 THEN NaR
                    ELSE IF (r[1] > 0) = pos THEN RSqrt(RAbs(r)) ELSE R0
EvalArithFv(st, env) ==
  LET x == env[st.a[1]]
      tx == TAll(x)
      with(tall, f) == LET q == EvalArithPos([st EXCEPT !.f = f], [k \in DOMAIN env |-> IF env[k].k = "fv" THEN env[k].q ELSE env[k]])
                       IN WithTQ(x, tall, q)
  IN CASE st.f \in {"add", "sub"} ->
            LET y == env[st.a[2]]
                ty == IF y.k = "fv" THEN TAll(y) ELSE <<>>
            IN IF y.k # "fv" THEN Err
               ELSE with([i \in DOMAIN tx |-> IF st.f = "add" THEN RAdd(tx[i], ty[i]) ELSE RSub(tx[i], ty[i])], st.f)
       [] st.f = "neg" -> with([i \in DOMAIN tx |-> RNeg(tx[i])], "neg")
       [] st.f = "pos" -> x
       [] st.f = "div" -> with([i \in DOMAIN tx |-> RDiv(tx[i], st.s)], "div")
       [] st.f = "norm2" -> QtyD(x.shape, Interval2(x), "len2", <<2, 0, 0>>)
       \* a complex length: real when the event is timelike, imaginary when it is spacelike
       [] st.f \in {"norm", "abs"} ->
            LET s2 == Interval2(x)
            IN Tup(<< QtyD(x.shape, [i \in DOMAIN s2 |-> SqrtPart(s2[i], TRUE)], "len", LenDim),
                      QtyD(x.shape, [i \in DOMAIN s2 |-> SqrtPart(s2[i], FALSE)], "len", LenDim) >>)
\* the event as an array (ct, x, y, z), and one written out of the fields
EvalFvGet(st, x) ==
  LET ts == TAll(x)
      n == DOMAIN ts
      kd == Kinds(x.q.cls)
  IN CASE st.f = "q4" -> QtyD(Append(x.shape, 4), FlatPts([i \in n |-> <<RMul(x.c, ts[i])>> \o x.q.pts[i]]), "len", LenDim)
       [] st.f = "t" -> QtyD(x.shape, ts, "time", TimeDim)
       [] st.f = "q" -> x.q
       \* any other attribute is the position's
       [] st.f = "comp" -> IF st.i > Len(kd) THEN Err
                           ELSE QtyD(x.shape, [i \in n |-> IF IsAngKind(kd[st.i]) THEN NaR ELSE Encode(x.q.cls, x.q.pts[i], x.q.delta)[st.i]],
                                     "any", KindDim(kd[st.i]))
       [] st.f = "same" -> x
\* an event written as the four lengths (ct, x, y, z)
EvalFvFrom(st, env) ==
  LET v == env[st.a[1]]
      n == IF v.shape = <<>> THEN 0 ELSE v.shape[Len(v.shape)]
      rows == RowsOf(v, 4)
      sh == SubSeq(v.shape, 1, Len(v.shape) - 1)
  IN IF n # 4 \/ v.kind # "len" THEN Err
     ELSE Fv(sh, [i \in DOMAIN rows |-> RDiv(rows[i][1], StdC(st))], sh,
             Pos("CartesianPos3D", sh, [i \in DOMAIN rows |-> SubSeq(rows[i], 2, 4)], R1), StdC(st), 1)
EqFvEl(x, y, i) ==
  LET e == EqEl(x.q, y.q, i)
  IN IF TAll(x)[i] # TAll(y)[i] THEN 0
     ELSE IF x.c # y.c \/ x.cstd # y.cstd THEN (IF e = 0 THEN 0 ELSE 2) ELSE e
EvalEqFv(st, x, y) ==
  LET t == [i \in 1..SizeOf(x.shape) |-> EqFvEl(x, y, i)]
  IN [k |-> "bool", shape |-> x.shape, val |-> IF st.f = "ne" THEN [i \in DOMAIN t |-> IF t[i] = 2 THEN 2 ELSE 1 - t[i]] ELSE t]
CheckFv(v, o, prec) ==
  IF o.k # "fv" THEN {"kind"}
  ELSE CheckPos(v.q, o.q, prec)
       \cup (IF o.shape = v.shape THEN {} ELSE {"shape"})
       \* the time may be stored once for several positions
       \cup (IF o.shape # v.shape \/ ~BOk(o.t.shape, v.shape) \/ BShape2(o.t.shape, v.shape) # v.shape THEN {"size"}
             ELSE CheckQ(QT(v.shape, TAll(v)), [o.t EXCEPT !.shape = v.shape, !.val = Pick(@, BroadcastTo(o.t.shape, v.shape).src)]))
       \cup (IF (v.cstd = 1 => o.cstd = 1) /\ (IsRat(v.c) => o.c = v.c) THEN {} ELSE {"lightspeed"})
=============================================================================
