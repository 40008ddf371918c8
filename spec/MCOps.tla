------------------------------- MODULE MCOps -------------------------------
(* Design model of the operator algebra: a walker builds compositions (append,*)
(* prepend, nest, invert, simplify, slice) from non-commuting operators.      *)
(* `ref` is the list of elementary actions the walker means; `o` is the      *)
(* structure it holds.  Every operation must keep the two in agreement.      *)
EXTENDS Lat, IOUtils
VARIABLES o, ref, n
vars == <<o, ref, n>>
ra == A(3,5,4,5)
PoolM == << Rot(RotZ(ra)), Rot(RotX(Ang90)), Rot(MId(3)), STr(<<Z(1), Z(-2), R0>>), STr(VZero(3)), GTr(Z(2), <<R0, Z(1), Z(1)>>), GTr(Z(-1), VZero(3)),
            Bst(<<R0, Z(1), Z(-1)>>), VBst(<<Z(1), R0, Z(2)>>), IdOp,
            GalOf(Rot(RotX(Ang90)), GTr(R1, <<Z(1), R0, R0>>), Bst(<<R0, R0, Z(1)>>)), GalOf(Rot(MId(3)), GTr(R0, VZero(3)), Bst(<<Z(1), R0, R0>>)) >>
Events == << [x |-> <<Z(1), Z(2), Z(-1)>>, t |-> Z(2), p |-> <<Z(1), R0, Z(1)>>], [x |-> VZero(3), t |-> R0, p |-> VZero(3)] >>
MaxN == IF IOEnv.TIER = "thorough" THEN 4 ELSE 3
Init == n = 0 /\ o = IdOp /\ ref = <<>>
Refs(p) == IF p.t = "gal" THEN p.ops ELSE <<p>>
Append1(p) == o' = OrOp(o, p) /\ ref' = ref \o Refs(p)
Prepend1(p) == o' = OrOp(p, o) /\ ref' = Refs(p) \o ref
Nest(p) == o' = PipeOf(<<o, PipeOf(<<p>>)>>) /\ ref' = ref \o Refs(p)
Invert == o' = InvOp(o) /\ ref' = [i \in DOMAIN ref |-> InvOp(ref[Len(ref) + 1 - i])]
Simplify == o' = SimpOp(o) /\ UNCHANGED ref
Resplit == /\ Compo(o) /\ \E k \in 0..Len(o.ops) : o' = OrOp(PipeOf(SliceOps(o.ops, <<99, k, 99>>)), PipeOf(SliceOps(o.ops, <<k, 99, 99>>)))
           /\ UNCHANGED ref
Next == n < MaxN /\ n' = n + 1
        /\ (\/ \E i \in DOMAIN PoolM : Append1(PoolM[i]) \/ Prepend1(PoolM[i]) \/ Nest(PoolM[i])
            \/ Invert \/ Simplify \/ Resplit)
Spec == Init /\ [][Next]_vars
ActsAsMeant == \A i \in DOMAIN Events : Act(o, Events[i]) = ActAll(ref, 1, Events[i])
InverseUndoes == \A i \in DOMAIN Events : LET e == Events[i] IN Act(InvOp(o), Act(o, e)) = e /\ Act(o, Act(InvOp(o), e)) = e
InverseOfInverse == \A i \in DOMAIN Events : Act(InvOp(InvOp(o)), Events[i]) = Act(o, Events[i])
SimplifyKeepsAction == \A i \in DOMAIN Events : Act(SimpOp(o), Events[i]) = Act(o, Events[i])
TrivialIsIdentity == (o.t # "pipe" /\ Trivial(o)) => SimpOp(o).t = "id"
=============================================================================
