-------------------------------- MODULE Deriv --------------------------------
(* Derivatives.  Every map between positions is differentiable away from    *)
(* the singular points of its charts, and its derivative along a velocity    *)
(* is the velocity of the image: D F(x) w, written in the chart of F(x).     *)
(* Forward mode, reverse mode and their compiled forms agree on it.          *)
EXTENDS Astro

\* the Cartesian rates of the image, row by row
ImgRates(st, x, w, env) ==
  CASE st.f \in {"rep", "toq"} -> w
    [] st.f = "neg" -> [i \in DOMAIN w |-> VNeg(w[i])]
    [] st.f = "scale" -> [i \in DOMAIN w |-> VScale(st.s, w[i])]
    [] st.f \in {"add", "sub"} -> w
    [] st.f = "apply" ->        \* the operators are affine
         LET o == env[st.a[3]]
             cp(pts) == EvalApply(o, <<Pos("CartesianPos3D", x.shape, pts, R1)>>).pts
             y1 == cp([i \in DOMAIN w |-> VAdd(x.pts[i], w[i])])
             y0 == cp(x.pts)
         IN [i \in DOMAIN w |-> VSub(y1[i], y0[i])]
ImgPos(st, x, env) ==
  CASE st.f = "rep" -> EvalRep(st, x)
    [] st.f = "toq" -> Pos("CartesianPos" \o ToString(Len(x.pts[1])) \o "D", x.shape, x.pts, R1)
    [] st.f = "neg" -> EvalArithPos([f |-> "neg", a |-> <<st.a[1]>>], env)
    [] st.f = "scale" -> EvalArithPos([f |-> "mul", s |-> st.s, a |-> <<st.a[1]>>], env)
    [] st.f \in {"add", "sub"} -> EvalArithPos([f |-> st.f, a |-> <<st.a[1], st.a[3]>>], env)
    [] st.f = "apply" -> EvalApply(env[st.a[3]], <<x>>)
\* the place a moving operator puts a point at, as the time goes by: it is affine in the time
EvalDTime(st, env) ==
  LET x == env[st.a[1]]
      t == env[st.a[2]]
      o == env[st.a[3]]
      y0 == EvalApply(o, <<x, t>>).items[1]
      y1 == EvalApply(o, <<x, [t EXCEPT !.val = [i \in DOMAIN t.val |-> RAdd(t.val[i], R1)]]>>).items[1]
      w == [i \in DOMAIN y0.pts |-> VSub(y1.pts[i], y0.pts[i])]
  IN EvalRepDif([cls |-> VelOfPos(y0.cls)], Dif("vel", "CartesianVel3D", y0.shape, w, w, y0.delta), y0)
EvalDeriv(st, env) ==
  IF st.f = "dtime" THEN EvalDTime(st, env) ELSE
  LET x == env[st.a[1]]
      v == env[st.a[2]]
      d == Len(x.pts[1])
      w == [i \in DOMAIN x.pts |-> ToCart(v.cls, v.cmp[i], x.pts[i], x.delta)]
  IN IF st.f = "norm" THEN
       QtyD(x.shape, [i \in DOMAIN w |-> LET n == NormOf(x.pts[i]) IN IF IsRat(n) THEN RDiv(Dot(x.pts[i], w[i]), n) ELSE NaR], "len/t", SpdDim)
     ELSE LET y == ImgPos(st, x, env)
              iw == ImgRates(st, x, w, env)
          IN IF y.k = "err" THEN Err
             ELSE IF st.f = "toq" THEN QtyD(x.shape \o <<d>>, FlatRows(iw), "len/t", SpdDim)
             ELSE EvalRepDif([cls |-> VelOfPos(y.cls)], Dif("vel", "CartesianVel" \o ToString(d) \o "D", y.shape, iw, iw, y.delta), y)
=============================================================================
