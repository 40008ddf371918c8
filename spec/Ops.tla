-------------------------------- MODULE Ops --------------------------------
(* Operators: values that act on points, times, velocities and events.       *)
(*   [k|->"op", t|->"rot", M] x -> Mx             [t|->"st", v] x -> x + v     *)
(*   [t|->"gt", dt, v] (x,t) -> (x + v, t + dt)   [t|->"boost", v] x -> x + vt *)
(*   [t|->"vb", v] p -> p + v                     [t|->"id"]                   *)
(*   [t|->"frame", fr, to]  what changing frames does to x and p (see Frames)  *)
(*   [t|->"pipe", ops]  left to right             [t|->"gal", ops]  rotation,  *)
(*                                  then space-time translation, then boost    *)
EXTENDS Frames

OpV(r) == [k |-> "op"] @@ r
Rot(M) == OpV([t |-> "rot", M |-> M])
STr(v) == OpV([t |-> "st", v |-> v])
GTr(dt, v) == OpV([t |-> "gt", dt |-> dt, v |-> v])
Bst(v) == OpV([t |-> "boost", v |-> v])
VBst(v) == OpV([t |-> "vb", v |-> v])
IdOp == OpV([t |-> "id"])
FrOp(a, b) == OpV([t |-> "frame", fr |-> a, to |-> b])
PipeOf(ops) == OpV([t |-> "pipe", ops |-> ops])
GalOf(r, g, b) == OpV([t |-> "gal", ops |-> <<r, g, b>>])
Compo(o) == o.t \in {"pipe", "gal"}

\* ---------------------------------------------- the action on one event ----
RECURSIVE Act(_, _), ActAll(_, _, _)
\* e = [x, t, p]
Act(o, e) ==
  CASE o.t = "rot" -> [e EXCEPT !.x = MVec(o.M, e.x)]
    [] o.t = "st" -> [e EXCEPT !.x = VAdd(e.x, o.v)]
    [] o.t = "gt" -> [e EXCEPT !.x = VAdd(e.x, o.v), !.t = RAdd(e.t, o.dt)]
    [] o.t = "boost" -> [e EXCEPT !.x = VAdd(e.x, VScale(e.t, o.v))]
    [] o.t = "vb" -> [e EXCEPT !.p = VAdd(e.p, o.v)]
    [] o.t = "id" -> e
    [] o.t = "frame" -> [e EXCEPT !.x = FrX(o.fr, o.to, e.x), !.p = FrV(o.fr, o.to, e.p)]
    [] Compo(o) -> ActAll(o.ops, 1, e)
ActAll(ops, i, e) == IF i > Len(ops) THEN e ELSE ActAll(ops, i + 1, Act(ops[i], e))

RECURSIVE InvOp(_)
InvOp(o) ==
  CASE o.t = "rot" -> Rot(MTr(o.M))
    [] o.t = "st" -> STr(VNeg(o.v))
    [] o.t = "gt" -> GTr(RNeg(o.dt), VNeg(o.v))
    [] o.t = "boost" -> Bst(VNeg(o.v))
    [] o.t = "vb" -> VBst(VNeg(o.v))
    [] o.t = "id" -> o
    [] o.t = "frame" -> FrOp(o.to, o.fr)
    [] Compo(o) -> PipeOf([i \in DOMAIN o.ops |-> InvOp(o.ops[Len(o.ops) + 1 - i])])
NegOp(o) == IF o.t = "rot" THEN Rot(MScale(Z(-1), o.M)) ELSE [o EXCEPT !.v = VNeg(o.v)]

\* composition: sequences are concatenated, anything else is an element
Elems(o) == IF o.t = "pipe" THEN o.ops ELSE <<o>>
OrOp(a, b) == PipeOf(Elems(a) \o Elems(b))

\* ------------------------------------------------------- simplification ----
IsZeroV(v) == \A i \in DOMAIN v : v[i] = R0
Within(a, x) == RLeq(RAbs(x), a)
RECURSIVE Trivial(_)
Trivial(o) ==
  CASE o.t = "rot" -> o.M = MId(3)
    [] o.t \in {"st", "boost", "vb"} -> IsZeroV(o.v)
    [] o.t = "gt" -> o.dt = R0 /\ IsZeroV(o.v)
    [] o.t = "id" -> TRUE
    [] o.t = "frame" -> FALSE
    [] o.t = "gal" -> \A i \in DOMAIN o.ops : Trivial(o.ops[i])
    [] o.t = "pipe" -> \A i \in DOMAIN o.ops : o.ops[i].t = "id"
\* with an absolute tolerance in the operator's own units, parts within it are dropped
Negligible(o, a) ==
  CASE o.t = "rot" -> \A i, j \in 1..3 : Within(a, RSub(o.M[i][j], MId(3)[i][j]))
    [] o.t \in {"st", "boost", "vb"} -> \A i \in DOMAIN o.v : Within(a, o.v[i])
    [] o.t = "gt" -> Within(a, o.dt) /\ \A i \in DOMAIN o.v : Within(a, o.v[i])
    [] OTHER -> FALSE
DropTiny(o, a) ==
  IF o.t = "gal" THEN PipeOf([i \in DOMAIN o.ops |-> IF Negligible(o.ops[i], a) THEN IdOp ELSE o.ops[i]])
  ELSE IF Negligible(o, a) THEN IdOp ELSE o
\* merging two adjacent operators of one kind, the first applied first
Merge(a, b) ==
  CASE a.t = "rot" -> Rot(MMul(b.M, a.M))
    [] a.t = "gt" -> GTr(RAdd(a.dt, b.dt), VAdd(a.v, b.v))
    [] OTHER -> [a EXCEPT !.v = VAdd(a.v, b.v)]
Mergeable(a, b) == a.t = b.t /\ a.t \in {"rot", "st", "gt", "boost", "vb"}
RECURSIVE SimpFold(_, _, _)
SimpFold(acc, ops, i) ==
  IF i > Len(ops) THEN acc
  ELSE LET o == ops[i]
       IN SimpFold(IF o.t = "id" THEN acc
                   ELSE IF acc.t = "id" THEN o
                   ELSE IF Mergeable(acc, o) THEN Merge(acc, o) ELSE OrOp(acc, o), ops, i + 1)
SimpOp(o) ==
  IF o.t = "pipe" THEN SimpFold(IdOp, o.ops, 1)
  ELSE IF o.t = "gal" THEN LET s == [i \in 1..3 |-> IF Trivial(o.ops[i]) THEN IdOp ELSE o.ops[i]]
                           IN IF s = o.ops THEN o ELSE SimpFold(IdOp, s, 1)
  ELSE IF Trivial(o) THEN IdOp ELSE o

\* -------------------------------------------------- events as FourVectors ----
\* [k|->"fv", shape, t (flat), tshape, q (a position value), c, cstd]
Fv(shape, t, tshape, q, c, cstd) ==
  [k |-> "fv", shape |-> shape, t |-> t, tshape |-> tshape, q |-> q, c |-> c, cstd |-> cstd]
TimeDim == <<0, 1, 0>>
QT(shape, val) == QtyD(shape, val, "time", TimeDim)

\* ------------------------------------------- the action on library values ----
\* w = [q, t, p]: a position value, a time quantity, a velocity value (or Nil)
Nil == [k |-> "nil"]
IsNil(x) == x.k = "nil"
CartCls(c) == c \in {"CartesianVel1D", "CartesianVel2D", "CartesianVel3D"}
VelCart(p, q) == [i \in DOMAIN p.cmp |-> IF AllRat(p.cmp[i]) THEN ToCart(p.cls, p.cmp[i], q.pts[i], p.delta) ELSE p.cart[i]]
\* the same Cartesian velocity, at another position
MoveVel(p, q0, q1) ==
  IF CartCls(p.cls) THEN p
  ELSE LET ct == VelCart(p, q0)
           sing(i) == Singular(PosOfDif(p.cls), q1.pts[i]) \/ ~AllRat(ct[i])
           n == Len(p.cmp[1])
       IN Dif("vel", p.cls, p.shape, [i \in DOMAIN p.cmp |-> IF sing(i) THEN NaRs(n) ELSE FromCart(p.cls, ct[i], q1.pts[i], p.delta)],
              [i \in DOMAIN p.cmp |-> IF sing(i) THEN NaRs(n) ELSE ct[i]], p.delta)
\* changing frames gives Cartesian vectors; what an opaque frame hides is kept beside the value
Hid(x, f) == Has(x, "hid") /\ x.hid.id = f.id
IcrsPts(f, x, own, Of(_, _)) == IF f.t # "opaque" THEN [i \in DOMAIN own |-> Of(f, own[i])]
                                ELSE IF Hid(x, f) THEN x.hid.pts ELSE [i \in DOMAIN own |-> Nars3]
WithHid(v, f, icrs) == IF f.t = "opaque" THEN [hid |-> [id |-> f.id, pts |-> icrs]] @@ v ELSE v
ActFrame(o, w) ==
  LET q == w.q
      p == w.p
      qi == IcrsPts(o.fr, q, q.pts, OfX)
      centre(i) == Has(q, "gc") /\ o.to.t = "opaque" /\ o.fr.t = "icrs" /\ q.gc = o.to.id
      q1 == WithHid(Pos("CartesianPos3D", q.shape, [i \in DOMAIN qi |-> IF centre(i) THEN VZero(3) ELSE ToX(o.to, qi[i])], R1), o.to, qi)
      pc == VelCart(p, q)
      pi == IcrsPts(o.fr, p, pc, OfV)
      pn == [i \in DOMAIN pi |-> ToV(o.to, pi[i])]
      p1 == WithHid(Dif("vel", "CartesianVel3D", p.shape, pn, pn, R1), o.to, pi)
  IN [w EXCEPT !.q = q1, !.p = IF IsNil(p) THEN p ELSE p1]
RECURSIVE ActW(_, _), ActWAll(_, _, _)
ActW(o, w) ==
  LET q == w.q
      newq(f(_)) == [q EXCEPT !.pts = [i \in DOMAIN q.pts |-> f(q.pts[i])]]
  IN CASE o.t = "rot" -> [w EXCEPT !.q = newq(LAMBDA x : MVec(o.M, x))]
       [] o.t = "st" -> LET q1 == IF IsNil(q) THEN q ELSE newq(LAMBDA x : VAdd(x, o.v))
                        IN [w EXCEPT !.q = q1, !.p = IF IsNil(w.p) THEN w.p ELSE MoveVel(w.p, q, q1)]
       [] o.t = "gt" -> [w EXCEPT !.q = newq(LAMBDA x : VAdd(x, o.v)), !.t = QT(w.t.shape, [i \in DOMAIN w.t.val |-> RAdd(w.t.val[i], o.dt)])]
       [] o.t = "boost" ->
            LET sh == BShape2(q.shape, w.t.shape)
                mq == BroadcastTo(q.shape, sh).src
                mt == BroadcastTo(w.t.shape, sh).src
            IN [w EXCEPT !.q = [q EXCEPT !.shape = sh,
                  !.pts = [i \in 1..SizeOf(sh) |-> VAdd(q.pts[mq[i]], VScale(w.t.val[mt[i]], o.v))]]]
       [] o.t = "vb" -> IF IsNil(w.p) THEN w
                        ELSE [w EXCEPT !.p = [w.p EXCEPT !.cmp = [i \in DOMAIN w.p.cmp |-> VAdd(w.p.cmp[i], o.v)]]]
       [] o.t = "id" -> w
       [] o.t = "frame" -> ActFrame(o, w)
       [] Compo(o) -> ActWAll(o.ops, 1, w)
ActWAll(ops, i, w) == IF i > Len(ops) THEN w ELSE ActWAll(ops, i + 1, ActW(ops[i], w))

FlatPts(pts) == FlattenSeq(pts)
QOfPts(q) == QtyD(Append(q.shape, DimOf(q.cls)), FlatPts(q.pts), "len", LenDim)
CartN(n) == CASE n = 1 -> "CartesianPos1D" [] n = 2 -> "CartesianPos2D" [] OTHER -> "CartesianPos3D"
QAsPos(v) == LET n == v.shape[Len(v.shape)]
             IN Pos(CartN(n), SubSeq(v.shape, 1, Len(v.shape) - 1), RowsOf(v, n), R1)
Tup(items) == [k |-> "tup", items |-> items]
IsTime(v) == v.k = "q" /\ v.kind = "time"
IsQ4(v) == v.k = "q" /\ v.kind = "len" /\ v.shape[Len(v.shape)] = 4
RECURSIVE Spl(_, _, _)
\* the arguments of a call, tuples spliced in
Spl(vs, i, acc) == IF i > Len(vs) THEN acc
                   ELSE Spl(vs, i + 1, acc \o (IF vs[i].k = "tup" THEN vs[i].items ELSE <<vs[i]>>))
EvalApply(o, args) ==
  LET x == args[1]
      W(q, t, p) == ActW(o, [q |-> q, t |-> t, p |-> p])
      asq == x.k = "q"
      back(q) == IF asq THEN QOfPts(q) ELSE q
      xq == IF asq /\ ~IsQ4(x) THEN QAsPos(x) ELSE x
  IN IF Len(args) = 1 THEN
       CASE x.k = "vel" -> W(Nil, Nil, x).p
         [] x.k = "fv" -> LET w == W(x.q, QT(x.tshape, x.t), Nil)
                          IN Fv(BShape2(w.q.shape, w.t.shape), w.t.val, w.t.shape, w.q, x.c, x.cstd)
         [] asq /\ IsQ4(x) ->          \* (ct, x, y, z) with c = 1 in the base units
              LET rows == RowsOf(x, 4)
                  sh == SubSeq(x.shape, 1, Len(x.shape) - 1)
                  w == W(Pos("CartesianPos3D", sh, [i \in DOMAIN rows |-> SubSeq(rows[i], 2, 4)], R1), QT(sh, [i \in DOMAIN rows |-> rows[i][1]]), Nil)
              IN QtyD(x.shape, FlatPts([i \in DOMAIN rows |-> <<w.t.val[i]>> \o w.q.pts[i]]), "len", LenDim)
         [] OTHER -> back(W(xq, Nil, Nil).q)
     ELSE IF IsTime(args[2]) THEN LET w == W(xq, args[2], Nil) IN Tup(<<back(w.q), w.t>>)
     ELSE IF args[2].k = "q" THEN
       LET y == args[2]
           rows == RowsOf(y, 3)
           w == W(xq, Nil, Dif("vel", "CartesianVel3D", SubSeq(y.shape, 1, Len(y.shape) - 1), rows, rows, R1))
       IN Tup(<<back(w.q), QtyD(y.shape, FlatPts(w.p.cmp), "len/t", <<1, -1, 0>>)>>)
     ELSE LET w == W(xq, Nil, args[2]) IN Tup(<<back(w.q), w.p>>)

\* ------------------------------------------------------ operator literals ----
RotAx(n, a) == CASE n = "x" -> RotX(a) [] n = "y" -> RotY(a) [] n = "z" -> RotZ(a)
RECURSIVE EulerR(_, _, _)
\* extrinsic axes (fixed): later rotations multiply on the left; intrinsic: on the right
EulerR(st, i, M) == IF i > Len(st.axes) THEN M
                    ELSE EulerR(st, i + 1, IF st.intrinsic = 1 THEN MMul(M, RotAx(st.axes[i], st.angs[i]))
                                           ELSE MMul(RotAx(st.axes[i], st.angs[i]), M))
VecArg(st, env) == IF Has(st, "vals") THEN st.vals
                   ELSE LET v == env[st.a[1]] IN IF v.k = "pos" THEN v.pts[1] ELSE IF v.k = "q" THEN v.val ELSE v.cmp[1]
PyIdx(i, n) == IF i < 0 THEN n + i + 1 ELSE i + 1
\* python slice with positive step; 99 is "omitted"
SliceOps(ops, s) ==
  LET n == Len(ops)
      cl(x) == IF x < 0 THEN (IF n + x < 0 THEN 0 ELSE n + x) ELSE IF x > n THEN n ELSE x
      step == IF s[3] = 99 THEN 1 ELSE s[3]
      a == IF s[1] = 99 THEN (IF step > 0 THEN 0 ELSE n - 1) ELSE cl(s[1])
      b == IF s[2] = 99 THEN n ELSE cl(s[2])
  IN IF step = -1 /\ s[2] = 99 THEN [i \in 1..(a + 1) |-> ops[a + 2 - i]]
     ELSE IF b <= a THEN <<>>
     ELSE [i \in 1..((b - a + step - 1) \div step) |-> ops[a + 1 + (i - 1) * step]]
Part(st, env, name, dflt) ==
  IF \E i \in DOMAIN st.parts : st.parts[i] = name
  THEN env[st.a[CHOOSE i \in DOMAIN st.parts : st.parts[i] = name]] ELSE dflt
EvalMkop(st, env) ==
  LET x == env[st.a[1]]
      y == env[st.a[2]]
  IN CASE st.t = "rot" -> Rot(IF st.form = "euler" THEN EulerR(st, 1, MId(3)) ELSE st.M)
       [] st.t = "st" -> STr(VecArg(st, env))
       [] st.t = "gt" -> IF Has(st, "vals") THEN GTr(st.vals[1], SubSeq(st.vals, 2, 4)) ELSE GTr(x.t[1], x.q.pts[1])
       [] st.t = "boost" -> Bst(VecArg(st, env))
       [] st.t = "vb" -> VBst(VecArg(st, env))
       [] st.t = "id" -> IdOp
       [] st.t = "gal" -> GalOf(Part(st, env, "rotation", Rot(MId(3))), Part(st, env, "translation", GTr(R0, VZero(3))),
                                Part(st, env, "velocity", Bst(VZero(3))))
       [] st.t = "pipe" -> PipeOf([i \in DOMAIN st.a |-> env[st.a[i]]])
       [] st.t = "or" -> OrOp(x, y)
       [] st.t = "item" -> x.ops[PyIdx(st.i, Len(x.ops))]
       [] st.t = "slice" -> PipeOf(SliceOps(x.ops, st.i))
       [] st.t = "inv" -> InvOp(x)
       [] st.t = "neg" -> NegOp(x)
       [] st.t = "matmul" -> Rot(MMul(x.M, y.M))
       [] st.t = "simp" -> IF Has(st, "atol") THEN DropTiny(x, st.atol) ELSE x
       [] st.t = "simp2" -> OrOp(x, y)
       \* the change from one frame to another: there is none to or from no frame at all
       [] st.t = "frame" -> IF x.t = "none" \/ y.t = "none" THEN Err ELSE IF x = y THEN IdOp ELSE FrOp(x, y)
\* only the action of an operator is specified, and that doing nothing simplifies to the identity
CheckOp(st, env, o) ==
  IF o.k # "op" THEN {"kind"}
  ELSE IF st.op = "mkop" /\ st.t = "simp" /\ o.cls # "Identity"
          /\ LET x == env[st.a[1]] IN IF Has(st, "atol") THEN DropTiny(x, st.atol).t = "id" ELSE Trivial(x)
       THEN {"trivial"}
  ELSE {}
=============================================================================
