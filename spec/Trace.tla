-------------------------------- MODULE Trace --------------------------------
(* Conformance: replays a recorded trace (one line per scenario) through     *)
(* the specification's Eval.  Verdicts are total: every step is judged, a    *)
(* failing step names its clauses and the replay continues from the         *)
(* specification's own value.                                               *)
EXTENDS Coordinax, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, env
vars == <<l, s, env>>

Init == l = 1 /\ s = 1 /\ env = <<>>
NoClause == {}
StepNow ==
  LET sc == T[l]
      st == sc.steps[s]
      o == sc.obs[s]
      v == Eval(st, env)
      bad == Judge(st, env, v, o, Get(sc, "prec", 64))
      last == s = Len(sc.steps)
  IN /\ IF bad = {} THEN TRUE
        ELSE PrintT("@FAIL " \o ToJson([id |-> sc.id, step |-> s, op |-> st.op, clauses |-> SetToSeq(bad)]))
     /\ l' = IF last THEN l + 1 ELSE l
     /\ s' = IF last THEN 1 ELSE s + 1
     /\ env' = IF last THEN <<>> ELSE IF Has(st, "d") THEN (st.d :> v) @@ env ELSE env
Next == l <= Len(T) /\ StepNow
Spec == Init /\ [][Next]_vars

RECURSIVE CountR(_)
CountR(i) == IF i > Len(T) THEN 0 ELSE Len(T[i].steps) + CountR(i + 1)
\* every recorded step was consumed
TraceAccepted == LET n == CountR(1)
                 IN /\ PrintT("@DONE " \o ToString(Len(T)) \o " " \o ToString(n))
                    /\ TLCGet("stats").diameter - 1 = n
=============================================================================
