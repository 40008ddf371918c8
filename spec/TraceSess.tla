------------------------------ MODULE TraceSess ------------------------------
(* Conformance of recorded sessions, all of them against one table of what    *)
(* each term looks like.                                                    *)
EXTENDS Session, Json, IOUtils, SequencesExt
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, reg, seen
vars == <<l, s, reg, seen>>
Init == l = 1 /\ s = 1 /\ reg = <<>> /\ seen = <<>>
StepNow ==
  LET e == T[l].steps[s]
      o == T[l].obs[s]
      last == s = Len(T[l].steps)
      t == IF e.e = "make" THEN LitTerm(e.d, e.v) ELSE IF e.e = "call" THEN CallTerm(e.c, reg, e.a) ELSE <<>>
      stays == e.e \in {"mut", "copy"}
      skip == o.out = "skip"
      bad == IF skip THEN {}
             ELSE (IF Changed(reg, seen, o.now, IF stays THEN "" ELSE e.d) # {} THEN {"changed"} ELSE {})
                  \cup (IF ~stays /\ Differs(seen, t, o.out) THEN {"result"} ELSE {})
                  \cup (IF e.e = "mut" /\ o.out # "refused" THEN {"accepted"} ELSE {})
                  \cup (IF e.e = "copy" /\ o.out # "copied" THEN {"copy"} ELSE {})
      raised == ~stays /\ o.ok = 0
      reg2 == IF skip \/ stays THEN reg ELSE IF raised THEN Drop(reg, e.d) ELSE Put(reg, e.d, t)
  IN /\ IF bad = {} THEN TRUE
        ELSE PrintT("@FAIL " \o ToJson([id |-> T[l].id, step |-> s, op |-> e.e, clauses |-> SetToSeq(bad)]))
     /\ l' = IF last THEN l + 1 ELSE l
     /\ s' = IF last THEN 1 ELSE s + 1
     /\ reg' = IF last THEN <<>> ELSE reg2
     /\ seen' = IF skip \/ stays \/ t \in DOMAIN seen THEN seen ELSE Put(seen, t, o.out)
Next == l <= Len(T) /\ StepNow
Spec == Init /\ [][Next]_vars
RECURSIVE CountR(_)
CountR(i) == IF i > Len(T) THEN 0 ELSE Len(T[i].steps) + CountR(i + 1)
TraceAccepted == LET n == CountR(1)
                 IN /\ PrintT("@DONE " \o ToString(Len(T)) \o " " \o ToString(n))
                    /\ TLCGet("stats").diameter - 1 = n
=============================================================================
