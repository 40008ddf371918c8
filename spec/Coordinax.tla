------------------------------ MODULE Coordinax ------------------------------
(* The library as one state machine: a register file of abstract values and *)
(* one transition per public API call.  Eval is the only definition of what *)
(* a call means; the exhaustive models, the scenario generators and the     *)
(* trace checker all use it.                                                *)
EXTENDS Deriv

Arg(st, env, i) == env[st.a[i]]
ErrArg(st, env) == Has(st, "a") /\ \E i \in DOMAIN st.a : ~Has(env, st.a[i]) \/ env[st.a[i]].k = "err"

Eval(st, env) ==
  IF ErrArg(st, env) THEN Err
  ELSE CASE st.op = "lit" ->
              IF IsPosCls(st.cls) THEN LitPos(st)
              ELSE LitDif(st, IF IsAccCls(st.cls) THEN "acc" ELSE "vel")
         [] st.op = "litq" -> Qty(st.shape, st.vals, st.kind)
         [] st.op = "rep" -> IF Arg(st, env, 1).k = "space" THEN EvalRepSp(st, Arg(st, env, 1)) ELSE EvalRep(st, Arg(st, env, 1))
         [] st.op = "repd" ->
              \* velocity: (v, position); acceleration: (a, velocity, position)
              EvalRepDif(st, Arg(st, env, 1), Arg(st, env, Len(st.a)))
         [] st.op = "normv" -> EvalNormDif(Arg(st, env, 1), Arg(st, env, Len(st.a)))
         [] st.op = "arith" -> IF Arg(st, env, 1).k = "fv" THEN EvalArithFv(st, env)
                              ELSE IF Arg(st, env, 1).k = "space" THEN EvalNegSp(st, Arg(st, env, 1))
                              ELSE IF st.f = "prod" THEN EvalPosProd(st, Arg(st, env, 1), Arg(st, env, 2)) ELSE EvalArith(st, env)
         [] st.op = "toq" -> EvalToq(st, Arg(st, env, 1))
         [] st.op = "qfrom" -> EvalQfrom(st, Arg(st, env, 1))
         [] st.op = "unitdir" -> EvalUnitDir(st, Arg(st, env, 1))
         [] st.op = "gen3" -> EvalGen3(st, Arg(st, env, 1))
         [] st.op = "deriv" -> EvalDeriv(st, env)
         [] st.op = "desc" -> EvalDesc(Arg(st, env, 1))
         [] st.op = "fvget" -> EvalFvGet(st, Arg(st, env, 1))
         [] st.op = "litsp" -> EvalLitSp(st, env)
         [] st.op = "spget" -> EvalSpGet(st, env)
         [] st.op = "litap" -> EvalLitAp(st)
         [] st.op = "aprep" -> EvalAprep(st, env)
         [] st.op = "toap" -> EvalToap(st, Arg(st, env, 1))
         [] st.op = "fromap" -> EvalFromap(st, Arg(st, env, 1))
         [] st.op = "apframe" -> IF st.data THEN Err ELSE [k |-> "frame", t |-> st.cls]
         [] st.op = "litd" -> EvalLitD(st)
         [] st.op = "dconv" -> EvalDconv(st, Arg(st, env, 1))
         [] st.op = "darith" -> EvalDarith(st, env)
         [] st.op = "fvfrom" -> EvalFvFrom(st, env)
         [] st.op = "arr" -> EvalArr(st, Arg(st, env, 1))
         [] st.op = "meta" -> EvalMeta(Arg(st, env, 1))
         [] st.op = "eq" -> IF Arg(st, env, 1).k = "fv" THEN EvalEqFv(st, Arg(st, env, 1), Arg(st, env, 2))
                           ELSE IF Arg(st, env, 1).k = "space" THEN EvalEqSp(st, Arg(st, env, 1), Arg(st, env, 2)) ELSE EvalEq(st, Arg(st, env, 1), Arg(st, env, 2))
         [] st.op = "uconv" -> Arg(st, env, 1)
         [] st.op = "vtime" -> EvalVTime(st, Arg(st, env, 1), Arg(st, env, 2))
         [] st.op = "ctor" -> EvalCtor(st)
         [] st.op = "mkop" -> EvalMkop(st, env)
         [] st.op = "mkframe" -> EvalMkframe(st)
         [] st.op = "frget" -> EvalFrget(st, Arg(st, env, 1))
         [] st.op = "litfv" -> EvalLitFv(st, env)
         [] st.op = "apply" -> EvalApply(Arg(st, env, 1), Spl([i \in 1..(Len(st.a) - 1) |-> Arg(st, env, i + 1)], 1, <<>>))
         [] OTHER -> Assert(FALSE, <<"unknown operation", st.op>>)

WantOf(st, v) == IF v.k = "space" THEN SpWant(st, v) ELSE WantUnits(st, v)
RECURSIVE CheckVal(_, _, _, _, _)
CheckVal(st, env, v, o, prec) ==
  CASE v.k = "pos" -> IF o.k = "pos" THEN CheckPos(v, o, prec) ELSE {"kind"}
    [] v.k \in {"vel", "acc"} -> IF o.k = v.k THEN CheckDif(v, o, prec) ELSE {"kind"}
    [] v.k = "q" -> CheckQ(v, o) \cup (IF Has(v, "qc") /\ (~Has(o, "qc") \/ o.qc # v.qc) THEN {"class"} ELSE {})
    [] v.k = "desc" -> CheckDesc(v, o)
    [] v.k = "ints" -> IF o.k = "ints" /\ o.val = v.val THEN {} ELSE {"meta"}
    [] v.k = "bool" -> CheckBool(v, o)
    [] v.k = "op" -> CheckOp(st, env, o)
    [] v.k = "frame" -> IF o.k = "frame" THEN {} ELSE {"kind"}
    [] v.k = "fv" -> CheckFv(v, o, prec)
    [] v.k = "space" -> CheckSp(v, o, prec)
    [] v.k = "dist" -> CheckDist(v, o, prec)
    [] v.k = "ap" -> CheckAp(v, o, prec)
    [] v.k = "q6" -> CheckQ6(v, o)
    [] v.k = "tup" -> IF o.k # "tup" \/ ~SameLen(v.items, o.items) THEN {"kind"}
                      ELSE UNION {CheckVal(st, env, v.items[i], o.items[i], prec) : i \in DOMAIN v.items}
    [] OTHER -> {}

\* which clauses an observation violates
Judge(st, env, v, o, prec) ==
  IF Skipped(o) \/ ErrArg(st, env) THEN {}
  ELSE IF v.k = "err" THEN IF o.ok = 0 THEN {} ELSE {"accepted"}
  ELSE IF o.ok = 0 THEN {"raised"}
  ELSE CheckVal(st, env, v, o, prec)
       \cup (IF st.op = "rep" /\ Get(st, "mode", "eager") = "eager"
             THEN IF (o.warn > 0) = EvalWarn(st, Arg(st, env, 1)) THEN {} ELSE {"warning"}
             ELSE {})
       \cup (IF st.op = "uconv" /\ (st.want # WantOf(st, v) \/ Len(o.uok) # Len(st.want) \/ \E i \in DOMAIN o.uok : o.uok[i] # 1) THEN {"unit"} ELSE {})
       \cup (IF st.op = "lit" /\ Has(st, "strict") /\ o.k = "pos" /\ ~StrictAz(st.cls, o) THEN {"wrap"} ELSE {})
=============================================================================
