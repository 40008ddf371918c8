------------------------------ MODULE Explain ------------------------------
(* Prints the value the specification gives one step of one scenario.        *)
EXTENDS Coordinax, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
RECURSIVE Run(_, _, _, _)
Run(steps, i, n, env) ==
  LET v == Eval(steps[i], env)
  IN IF i = n THEN v ELSE Run(steps, i + 1, n, IF Has(steps[i], "d") THEN (steps[i].d :> v) @@ env ELSE env)
ASSUME PrintT(ToJson(Run(T[1].steps, 1, atoi(IOEnv.STEP), <<>>)))
=============================================================================
