------------------------------- MODULE Session -------------------------------
(* A session: registers hold objects, and what an object is depends on how   *)
(* it was made and on nothing else.  The state is the *term* of every        *)
(* register: a literal (register, variant), or a call applied to the terms   *)
(* of its arguments.  Making and calling write one register; every other     *)
(* object stays as it is; an attempt to change an object changes nothing, and *)
(* a copy of an object stands in for it from then on.                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Bound(reg, a) == \A i \in DOMAIN a : a[i] \in DOMAIN reg
LitTerm(r, v) == << "lit", r, v >>
CallTerm(c, reg, a) == << "call", c >> \o [i \in DOMAIN a |-> reg[a[i]]]
Put(reg, d, t) == (d :> t) @@ reg
Drop(reg, d) == [r \in DOMAIN reg \ {d} |-> reg[r]]
\* the transitions, on the terms
MakeOf(reg, r, v) == Put(reg, r, LitTerm(r, v))
CallOf(reg, c, a, d) == Put(reg, d, CallTerm(c, reg, a))
\* an object's copy takes its place: same term, so everything still looks the same
CopyOf(reg, r) == Put(reg, r, reg[r])
\* what must be seen.  seen: term -> fingerprint, as far as terms have been met in any session;
\* now: what the registers hold after the step, as observed
Changed(reg, seen, now, but) == { r \in DOMAIN reg \ {but} : reg[r] \in DOMAIN seen /\ (r \notin DOMAIN now \/ now[r] # seen[reg[r]]) }
Differs(seen, t, out) == t \in DOMAIN seen /\ seen[t] # out
=============================================================================
