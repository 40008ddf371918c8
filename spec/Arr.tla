-------------------------------- MODULE Arr --------------------------------
(* Vectors as arrays of vectors: every array operation is a map from result *)
(* elements to source elements (row-major, 1-based), applied to the whole   *)
(* vector of each element.                                                  *)
EXTENDS Arith

\* 0-based coordinates of the k-th element (1-based, row-major) of a shape
RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* ---- index expressions: one item per axis, newaxis and ellipsis ----
NONE == 99
IInt(i) == [t |-> "i", v |-> i]
ISl(a, b, c) == [t |-> "s", v |-> <<a, b, c>>]
IArr(v, sh) == [t |-> "a", v |-> v, sh |-> sh]
IMask(v) == [t |-> "m", v |-> v]
INew == [t |-> "n"]
IEll == [t |-> "e"]
IAll == ISl(NONE, NONE, NONE)
NormI(i, n) == IF i < 0 THEN i + n ELSE i
MinI(a, b) == IF a < b THEN a ELSE b
\* Python's slice semantics
SliceIdx(v, n) ==
  LET st == IF v[3] = NONE THEN 1 ELSE v[3]
      cl(i, lo, hi) == MinI(MaxI(NormI(i, n), lo), hi)
      a == IF st > 0 THEN (IF v[1] = NONE THEN 0 ELSE cl(v[1], 0, n)) ELSE (IF v[1] = NONE THEN n - 1 ELSE cl(v[1], -1, n - 1))
      b == IF st > 0 THEN (IF v[2] = NONE THEN n ELSE cl(v[2], 0, n)) ELSE (IF v[2] = NONE THEN -1 ELSE cl(v[2], -1, n - 1))
      m == IF st > 0 THEN (IF b > a THEN (b - a + st - 1) \div st ELSE 0)
           ELSE (IF a > b THEN (a - b - st - 1) \div (-st) ELSE 0)
  IN [i \in 1..m |-> a + (i - 1) * st]
MaskIdx(v) == LET S0_ == SelectSeq([i \in 1..Len(v) |-> i], LAMBDA i : v[i] = 1)
              IN [i \in 1..Len(S0_) |-> S0_[i] - 1]
SelOf(it, n) == CASE it.t = "i" -> <<NormI(it.v, n)>>
                  [] it.t = "s" -> SliceIdx(it.v, n)
                  [] it.t = "a" -> [i \in DOMAIN it.v |-> NormI(it.v[i], n)]
                  [] it.t = "m" -> MaskIdx(it.v)
DimsOfItem(it, n) == CASE it.t = "i" -> <<>> [] it.t = "a" -> it.sh [] OTHER -> <<Len(SelOf(it, n))>>
Consuming(items) == Cardinality({i \in DOMAIN items : items[i].t \in {"i", "s", "a", "m"}})
\* ellipsis (explicit, or implied at the end) expands to full slices
Expand(items, nd) ==
  LET miss == nd - Consuming(items)
      fill == [i \in 1..miss |-> IAll]
      es == {i \in DOMAIN items : items[i].t = "e"}
  IN IF es = {} THEN items \o fill
     ELSE LET e == CHOOSE i \in es : TRUE
          IN SubSeq(items, 1, e - 1) \o fill \o SubSeq(items, e + 1, Len(items))
RECURSIVE SelR(_, _, _, _)
SelR(items, shape, ax, acc) ==      \* acc: [shape, src] over the axes done (0-based offsets)
  IF items = <<>> THEN acc
  ELSE LET it == Head(items) IN
       IF it.t = "n" THEN SelR(Tail(items), shape, ax, [acc EXCEPT !.shape = Append(@, 1)])
       ELSE LET n == shape[ax]
                sel == SelOf(it, n)
                m == Len(sel)
                src == [k \in 1..(Len(acc.src) * m) |-> acc.src[((k - 1) \div m) + 1] * n + sel[((k - 1) % m) + 1]]
            IN SelR(Tail(items), shape, ax + 1, [shape |-> acc.shape \o DimsOfItem(it, n), src |-> src])
Index(shape, items) ==
  LET r == SelR(Expand(items, Len(shape)), shape, 1, [shape |-> <<>>, src |-> <<0>>])
  IN [shape |-> r.shape, src |-> [i \in DOMAIN r.src |-> r.src[i] + 1]]

Perm(shape, axes) ==
  LET nsh == [i \in DOMAIN shape |-> shape[axes[i]]]
      src(k) == LET c == Coord(k, nsh) IN Lin([i \in DOMAIN shape |-> LET j == CHOOSE j \in DOMAIN axes : axes[j] = i IN c[j]], shape)
  IN [shape |-> nsh, src |-> [k \in 1..SizeOf(shape) |-> src(k)]]
Ident(n) == [i \in 1..n |-> i]
Resolve(new, size) ==
  LET ms == {i \in DOMAIN new : new[i] = -1}
      known == ProdSeq([i \in DOMAIN new |-> IF i \in ms THEN 1 ELSE new[i]], 1)
  IN [i \in DOMAIN new |-> IF i \in ms THEN size \div known ELSE new[i]]
\* Fortran order: the first axis varies fastest
FLin(c, shape) == Lin(RevSeq(c), RevSeq(shape))
FCoord(k, shape) == RevSeq(Coord(k, RevSeq(shape)))
ReshapeF(shape, new) ==
  [shape |-> new, src |-> [k \in 1..SizeOf(new) |-> Lin(FCoord(FLin(Coord(k, new), new), shape), shape)]]
\* the element map of an array step
ArrMap(st, shape) ==
  LET n == Len(shape) IN
  CASE st.f = "index" -> Index(shape, st.idx)
    [] st.f = "iter" -> Index(shape, <<IInt(st.n)>>)
    [] st.f = "T" -> Perm(shape, RevSeq(Ident(n)))
    [] st.f = "mT" -> Perm(shape, [i \in 1..n |-> IF i = n THEN n - 1 ELSE IF i = n - 1 THEN n ELSE i])
    [] st.f \in {"flatten", "ravel"} -> [shape |-> <<SizeOf(shape)>>, src |-> Ident(SizeOf(shape))]
    [] st.f = "reshape" ->
         LET new == Resolve(st.shape, SizeOf(shape))
         IN IF Get(st, "order", "C") = "F" THEN ReshapeF(shape, new)
            ELSE [shape |-> new, src |-> Ident(SizeOf(shape))]
    [] st.f = "bc" -> BroadcastTo(shape, st.shape)

ShapeOf(v) == v.shape
RECURSIVE Rearrange(_, _)
Rearrange(v, m) ==
  CASE v.k = "pos" -> [v EXCEPT !.shape = m.shape, !.pts = Pick(@, m.src)]
    [] v.k \in {"vel", "acc"} ->
         LET w == [v EXCEPT !.shape = m.shape, !.cmp = Pick(@, m.src), !.cart = IF Len(@) = 0 THEN @ ELSE Pick(@, m.src)]
         IN IF Has(v, "raw") THEN [w EXCEPT !.raw = Pick(@, m.src)] ELSE w
    [] v.k = "dist" -> [v EXCEPT !.shape = m.shape, !.el = Pick(@, m.src)]
    [] v.k \in {"q", "bool"} -> [v EXCEPT !.shape = m.shape, !.val = Pick(@, m.src)]
    [] v.k = "fv" -> [v EXCEPT !.shape = m.shape, !.tshape = m.shape, !.q = Rearrange(@, m),
                              !.t = Pick(Pick(@, BroadcastTo(v.tshape, v.shape).src), m.src)]
    [] v.k = "space" -> [v EXCEPT !.shape = m.shape, !.m = [d \in DOMAIN @ |-> Rearrange(Rearrange(@[d], BroadcastTo(@[d].shape, v.shape)), m)]]
EvalArr(st, v) ==
  IF st.f = "mT" /\ Len(ShapeOf(v)) < 2 THEN Err
  ELSE Rearrange(v, ArrMap(st, ShapeOf(v)))
EvalMeta(v) ==
  LET sh == ShapeOf(v)
  IN [k |-> "ints", val |-> <<Len(sh), SizeOf(sh), IF sh = <<>> THEN 0 ELSE sh[1]>> \o sh]
=============================================================================
