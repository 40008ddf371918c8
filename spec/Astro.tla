-------------------------------- MODULE Astro --------------------------------
(* The same positions and velocities written in astropy.                     *)
(* [k|->"ap", cls, of]: an astropy representation or differential of class    *)
(* `cls` standing for the value `of` of the corresponding coordinax class.    *)
(* Going over and coming back keeps the point (or the velocity components)   *)
(* and gives the class that was asked for; a velocity changes class only at   *)
(* a position.                                                               *)
EXTENDS Dist

ApPairs == << <<"CartesianPos3D", "CartesianRepresentation">>, <<"CylindricalPos", "CylindricalRepresentation">>,
              <<"SphericalPos", "PhysicsSphericalRepresentation">>, <<"LonLatSphericalPos", "SphericalRepresentation">>,
              <<"CartesianVel3D", "CartesianDifferential">>, <<"CylindricalVel", "CylindricalDifferential">>,
              <<"SphericalVel", "PhysicsSphericalDifferential">>, <<"LonLatSphericalVel", "SphericalDifferential">>,
              <<"LonCosLatSphericalVel", "SphericalCosLatDifferential">> >>
HasAp(c) == \E i \in DOMAIN ApPairs : ApPairs[i][1] = c
ApOf(c) == ApPairs[CHOOSE i \in DOMAIN ApPairs : ApPairs[i][1] = c][2]
Ap(v) == IF v.k = "err" THEN [k |-> "ap", cls |-> "", of |-> v] ELSE [k |-> "ap", cls |-> ApOf(v.cls), of |-> v]
\* something astropy holds that is no position: st.bad
EvalLitAp(st) == IF Has(st, "bad") THEN Ap(Err) ELSE IF IsPosCls(st.cls) THEN Ap(LitPos(st)) ELSE Ap(LitDif(st, "vel"))
\* astropy's own re-expression
EvalAprep(st, env) == LET x == env[st.a[1]].of IN
  IF x.k = "pos" THEN Ap(EvalRep(st, x)) ELSE Ap(EvalRepDif(st, x, env[st.a[2]].of))
Rank1(v) == v.shape \o <<3>>
EvalToap(st, x) ==
  CASE st.to = "Quantity" ->
         (IF x.k = "pos" THEN QtyD(Rank1(x), FlattenSeq(x.pts), "len", LenDim)
          ELSE QtyD(Rank1(x), FlattenSeq(x.cmp), IF x.k = "vel" THEN "len/t" ELSE "len/t2", IF x.k = "vel" THEN SpdDim ELSE AccDim))
    [] st.to = "Base" -> Ap(x)
    [] x.k = "pos" -> Ap(EvalRep([cls |-> st.to], x))
    [] OTHER -> IF st.to = x.cls THEN Ap(x) ELSE Err
EvalFromap(st, a) ==
  LET x == a.of
  IN IF x.k = "err" THEN Err
     ELSE IF st.cls \in {"AbstractPos3D", "AbstractVel3D"} THEN (IF (st.cls = "AbstractPos3D") = (x.k = "pos") THEN x ELSE Err)
     ELSE IF x.k = "vel" THEN (IF st.cls = x.cls THEN x ELSE Err)
     ELSE IF st.cls \in Charts3 \ {"ProlateSpheroidalPos"} THEN EvalRep(st, x) ELSE Err
CheckAp(v, o, prec) ==
  IF o.k # "ap" THEN {"kind"}
  ELSE IF v.of.k = "err" THEN {}
  ELSE (IF o.acls = v.cls THEN {} ELSE {"class"})
       \* astropy does not wrap every azimuth
       \cup (IF o.of.k # v.of.k THEN {"kind"} ELSE IF v.of.k = "pos" THEN CheckPos(v.of, o.of, prec) \ {"range"} ELSE CheckDif(v.of, o.of, prec))
=============================================================================
