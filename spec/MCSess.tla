------------------------------- MODULE MCSess -------------------------------
(* The session rules on small machines: one that keeps them and four that    *)
(* break them (a call that changes its argument, a call whose result shares   *)
(* its argument, a cache keyed on too little, a copy    *)
(* that loses something).  The rules accept every       *)
(* session of the first and notice the others as soon as something has gone   *)
(* wrong.                                                                    *)
EXTENDS Session, IOUtils
VARIABLES impl, heap, cache, reg, seen, flagged, wrong, n
vars == <<impl, heap, cache, reg, seen, flagged, wrong, n>>
MaxN == IF IOEnv.TIER = "thorough" THEN 7 ELSE 5
Impls == {"ok", "writes", "shares", "cache", "copies"}
Regs == {"p", "q"}
Init == impl \in Impls /\ heap = <<>> /\ cache = <<>> /\ reg = <<>> /\ seen = <<>> /\ flagged = FALSE /\ wrong = FALSE /\ n = 0
\* what an object of a term must hold
RECURSIVE Val(_)
Val(t) == IF t[1] = "lit" THEN (IF t[2] = "p" THEN 10 ELSE 20) + t[3] ELSE IF t[2] = "inc" THEN Val(t[3]) + 100 ELSE Val(t[3]) + Val(t[4])
See(reg2, heap2, d, t) ==
  LET out == heap2[d]
  IN /\ reg' = reg2 /\ heap' = heap2
     /\ flagged' = (flagged \/ Differs(seen, t, out) \/ Changed(reg, seen, heap2, d) # {})
     /\ wrong' = (wrong \/ \E t2 \in {t} : out # Val(t2) \/ \E r \in DOMAIN reg \ {d} : heap2[r] # Val(reg[r]))
     /\ seen' = IF t \in DOMAIN seen THEN seen ELSE Put(seen, t, out)
Make(r, v) == LET t == LitTerm(r, v) IN See(Put(reg, r, t), Put(heap, r, Val(t)), r, t) /\ UNCHANGED cache
Inc(r, d) == /\ r \in DOMAIN reg
             /\ LET t == CallTerm("inc", reg, <<r>>)
                    good == heap[r] + 100
                    key == "inc"
                    out == IF impl = "cache" /\ key \in DOMAIN cache THEN cache[key] ELSE good
                    h == Put(heap, d, out)
                IN /\ See(Put(reg, d, t), IF impl = "writes" /\ r # d THEN Put(h, r, out) ELSE h, d, t)
                   /\ cache' = IF impl = "cache" THEN Put(cache, key, out) ELSE cache
Add(a, b, d) == /\ a \in DOMAIN reg /\ b \in DOMAIN reg
                /\ LET t == CallTerm("add", reg, <<a, b>>)
                       out == heap[a] + heap[b]
                       h == Put(heap, d, out)
                   IN See(Put(reg, d, t), IF impl = "shares" /\ a # d THEN Put(h, a, out) ELSE h, d, t) /\ UNCHANGED cache
\* a copy takes an object's place
Copy(r) == /\ r \in DOMAIN reg
           /\ LET h == IF impl = "copies" THEN Put(heap, r, heap[r] % 10) ELSE heap
                  t == reg[r]
              IN /\ reg' = CopyOf(reg, r) /\ heap' = h /\ flagged' = (flagged \/ Changed(reg, seen, h, "") # {})
                 /\ wrong' = (wrong \/ h[r] # Val(t)) /\ UNCHANGED <<cache, seen>>
Next == /\ n < MaxN /\ n' = n + 1 /\ UNCHANGED impl
        /\ \/ \E r \in Regs, v \in 1..2 : Make(r, v)
           \/ \E r \in Regs \cup {"x"} : Copy(r)
           \/ \E r \in Regs \cup {"x"} : Inc(r, "x")
           \/ \E a \in Regs, b \in Regs : Add(a, b, "x")
           \* another session of the same program
           \/ heap' = <<>> /\ reg' = <<>> /\ cache' = <<>> /\ UNCHANGED <<seen, flagged, wrong>>
Spec == Init /\ [][Next]_vars
KeepsRules == impl = "ok" => ~flagged /\ ~wrong
\* a change to an object someone still holds is noticed at once
Noticed == impl \in {"writes", "shares", "copies"} /\ wrong => flagged
\* a stale answer is noticed at the latest when the same call is met twice with different histories
Sound == flagged => wrong
=============================================================================
