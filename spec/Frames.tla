------------------------------- MODULE Frames -------------------------------
(* Reference frames.  Every frame is tied to the ICRS by its definition:      *)
(*   Galactocentric(lon, lat, d, roll, z, v):                                 *)
(*     x' = A x - H d e_x      p' = A p + v       A = H Rx(roll - roll0) Ry(lat) Rz(-lon)   *)
(*   with H = Ry(h), sin h = z/d, and roll0 a constant (58.5986320306 deg).   *)
(* `roll` below is measured from roll0, so that it is an exact angle; the     *)
(* binding adds the constant.  A frame whose parameters are not lattice       *)
(* values (the default one) is `opaque`: its map is rigid and invertible and  *)
(* only what the definition fixes exactly is used - the Sun, the centre, and  *)
(* that the way back undoes the way there.                                    *)
EXTENDS Conv

RotX(a) == <<<<R1, R0, R0>>, <<R0, C(a), RNeg(S(a))>>, <<R0, S(a), C(a)>>>>
RotY(a) == <<<<C(a), R0, S(a)>>, <<R0, R1, R0>>, <<RNeg(S(a)), R0, C(a)>>>>
RotZ(a) == <<<<C(a), RNeg(S(a)), R0>>, <<S(a), C(a), R0>>, <<R0, R0, R1>>>>

ICRS == [k |-> "frame", t |-> "icrs"]
NoFrame == [k |-> "frame", t |-> "none"]
\* h: the exact angle with sin h = z / d
FrMat(lon, lat, roll, h) == MMul(RotY(h), MMul(RotX(roll), MMul(RotY(lat), RotZ(AngNeg(lon)))))
Gcf(lon, lat, d, roll, h, v) == [k |-> "frame", t |-> "gcf", lon |-> lon, lat |-> lat, d |-> d, roll |-> roll, h |-> h, v |-> v,
                                 A |-> FrMat(lon, lat, roll, h), off |-> MVec(RotY(h), <<d, R0, R0>>)]
Opaque(id, d, z, v) == [k |-> "frame", t |-> "opaque", id |-> id, d |-> d, z |-> z, v |-> v]
FrA(f) == f.A
FrOff(f) == f.off
FrZ(f) == IF f.t = "opaque" THEN f.z ELSE RMul(f.d, S(f.h))
Nars3 == <<NaR, NaR, NaR>>

\* from the ICRS to f, and back
ToX(f, x) == CASE f.t = "icrs" -> x
               [] f.t = "gcf" -> VSub(MVec(FrA(f), x), FrOff(f))
               [] f.t = "opaque" -> IF x = VZero(3) THEN <<RNeg(RSqrt(RSub(RSqr(f.d), RSqr(f.z)))), R0, f.z>> ELSE Nars3
ToV(f, p) == CASE f.t = "icrs" -> p
               [] f.t = "gcf" -> VAdd(MVec(FrA(f), p), f.v)
               [] f.t = "opaque" -> IF p = VZero(3) THEN f.v ELSE Nars3
OfX(f, x) == CASE f.t = "icrs" -> x
               [] f.t = "gcf" -> MVec(MTr(FrA(f)), VAdd(x, FrOff(f)))
               [] f.t = "opaque" -> Nars3
OfV(f, p) == CASE f.t = "icrs" -> p
               [] f.t = "gcf" -> MVec(MTr(FrA(f)), VSub(p, f.v))
               [] f.t = "opaque" -> Nars3
FrX(a, b, x) == IF a = b THEN x ELSE ToX(b, OfX(a, x))
FrV(a, b, p) == IF a = b THEN p ELSE ToV(b, OfV(a, p))

EvalMkframe(st) ==
  CASE st.t = "icrs" -> ICRS
    [] st.t = "none" -> NoFrame
    [] st.t = "gcf" -> Gcf(st.lon, st.lat, st.dist, st.roll, st.h, st.v)
    [] st.t = "opaque" -> Opaque(st.id, st.dist, st.z, st.v)
\* what a frame says of itself
EvalFrget(st, f) ==
  CASE st.f = "galcen" ->
         IF f.t = "opaque" THEN [gc |-> f.id] @@ Pos("LonLatSphericalPos", <<>>, <<Nars3>>, R1)
         ELSE Pos("LonLatSphericalPos", <<>>, <<Decode("LonLatSphericalPos", <<f.lon, f.lat, f.d>>, R1)>>, R1)
    [] st.f = "v" -> Dif("vel", "CartesianVel3D", <<>>, <<f.v>>, <<f.v>>, R1)
    [] st.f = "z" -> QtyD(<<>>, <<FrZ(f)>>, "len", LenDim)
    \* the documented defaults: lon, lat, roll0 in 1e-6 deg; d (pc); z (0.1 pc); v (10 m/s); roll
    [] st.f = "fields" -> [k |-> "ints", val |-> <<266405100, -28936175, 58598632, 8122, 208, 1290, 24560, 778, 0>>]
=============================================================================
