------------------------------- MODULE GenArr -------------------------------
(* Array behaviour of vectors: all index expressions over small batches,     *)
(* every rearranging method, and long walks through them, for every class    *)
(* and for components stored with different broadcastable shapes.            *)
EXTENDS Shapes, IOUtils
Thorough == IOEnv.TIER = "thorough"
SEED == atoi(IOEnv.SEED)
S0(id, i, prec, steps) == [id |-> id, base |-> BaseFor(i), mag |-> 0, prec |-> prec, steps |-> steps]
Ix(d, a, items) == [op |-> "arr", d |-> d, f |-> "index", a |-> <<a>>, idx |-> items]
Op(d, a, f) == [op |-> "arr", d |-> d, f |-> f, a |-> <<a>>]
Rs(d, a, sh, how, ord) == [op |-> "arr", d |-> d, f |-> "reshape", a |-> <<a>>, shape |-> sh, how |-> how, order |-> ord]
Meta(a) == [op |-> "meta", a |-> <<a>>]
Bc(d, a, sh) == [op |-> "arr", d |-> d, f |-> "bc", a |-> <<a>>, shape |-> sh]
It(d, a, n) == [op |-> "arr", d |-> d, f |-> "iter", a |-> <<a>>, n |-> n]

\* items valid on an axis of length n
Items(n) == << IAll, IInt(0), IInt(-1), ISl(NONE, NONE, 2), ISl(NONE, NONE, -1), ISl(1, NONE, NONE), ISl(NONE, -1, NONE) >>
            \o (IF n > 1 THEN << IInt(n - 2), ISl(-1, NONE, -2), ISl(0, 1, NONE) >> ELSE <<>>)
            \o << ISl(5, NONE, NONE) >>
AItems(n) == << IArr(<<n - 1, 0, n - 1>>, <<3>>), IArr(<<0, -1, n - 1, 0>>, <<2, 2>>), IMask([i \in 1..n |-> i % 2]), IMask([i \in 1..n |-> 0]) >>
\* every index with at most one advanced item; integer items never mixed with advanced ones
Idx1(n) == [i \in DOMAIN (Items(n) \o AItems(n)) |-> <<(Items(n) \o AItems(n))[i]>>]
           \o << <<INew>>, <<IEll>>, <<IEll, IInt(0)>>, <<INew, IInt(-1)>>, <<IInt(0), INew>>, <<IEll, INew>> >>
Sl(n) == << IAll, ISl(NONE, NONE, -1), ISl(0, 1, NONE) >>
Idx2(n, m) ==
  FlattenAll([i \in DOMAIN Items(n) |-> [j \in DOMAIN Items(m) |-> <<Items(n)[i], Items(m)[j]>>]])
  \o FlattenAll([i \in 1..3 |-> [j \in DOMAIN AItems(m) |-> <<Sl(n)[i], AItems(m)[j]>>]])
  \o FlattenAll([i \in DOMAIN AItems(n) |-> [j \in 1..3 |-> <<AItems(n)[i], Sl(m)[j]>>]])
  \o Idx1(n) \o << <<IEll, IInt(-1)>>, <<IInt(0), IEll, IInt(0)>>, <<IEll, ISl(NONE, NONE, 2)>>, <<IAll, INew, IInt(m - 1)>>,
                   <<INew, IAll, IInt(0), INew>>, <<IInt(0), INew, IAll>>, <<IAll, IEll, INew>> >>
Idx3(s) == << <<IInt(0)>>, <<IAll, IInt(0)>>, <<IAll, IAll, IInt(-1)>>, <<IEll, IInt(0)>>, <<IInt(-1), IEll>>, <<IInt(0), IEll, IInt(-1)>>,
              <<IInt(0), IInt(0), IInt(0)>>, <<ISl(NONE, NONE, -1), IAll, ISl(NONE, NONE, -1)>>, <<IEll, INew, IInt(0)>>,
              <<IAll, IArr(<<s[2] - 1, 0>>, <<2>>)>>, <<IEll, IArr(<<s[3] - 1, 0>>, <<2>>)>>, <<IEll, IMask([i \in 1..s[3] |-> i % 2])>>,
              <<IArr(<<0, 0, -1>>, <<3>>)>>, <<IInt(0), IAll, IInt(0)>>, <<ISl(1, 1, NONE)>>, <<INew, IEll, INew>> >>
IdxOf(s) == IF SizeOf(s) = 0 THEN << <<IEll>>, <<INew>>, <<IAll>>, <<ISl(NONE, NONE, -1)>>, <<IEll, INew>>, <<ISl(5, NONE, NONE)>> >>
            ELSE IF Len(s) = 1 THEN Idx1(s[1]) ELSE IF Len(s) = 2 THEN Idx2(s[1], s[2]) ELSE IF Len(s) = 3 THEN Idx3(s)
            ELSE << <<INew>>, <<IEll>>, <<IEll, INew>> >>
\* a sample of k of n, rotating
Some(seq, k, off) == IF k >= Len(seq) THEN seq ELSE [i \in 1..k |-> seq[((off + i * 7) % Len(seq)) + 1]]
NCompsOf(c) == IF c \in {"CartesianPosND", "CartesianVelND", "CartesianAccND"} THEN 0 ELSE Len(KindsOf(c))
SpreadOf(c, s) == IF NCompsOf(c) = 0 THEN << s >> ELSE Spread(c, s)
HasBc(c) == c \in {"CartesianPos2D", "CartesianPos3D", "SphericalPos", "PolarPos", "CylindricalPos", "CartesianPos1D",
                   "LonLatSphericalPos", "MathSphericalPos"}
Rearr(s) ==   \* every rearranging method with the shape s
  LET z == SizeOf(s) IN
  << Meta("x"), Op("t", "x", "T"), Op("tt", "t", "T"), Op("m", "x", "mT"), Op("f", "x", "flatten"), Op("r", "x", "ravel"),
     Rs("s", "x", <<z>>, "args", "C"), Rs("s", "x", <<-1>>, "args", "C"), Rs("s", "x", RevSeq(s), "tuple", "C"),
     Rs("s1", "x", <<1>> \o s \o <<1>>, "args", "C"), Rs("s2", "s1", s, "tuple", "C"), Meta("s1"),
     Rs("b", "f", s, "tuple", "C"), Rs("g", "t", s, "args", "C"), Meta("t"), Meta("f") >>
  \o (IF Len(s) > 1 THEN << Rs("o", "x", RevSeq(s), "tuple", "F"), Rs("o2", "x", <<z>>, "args", "F"), Op("mm", "m", "mT") >> ELSE <<>>)
  \o (IF z % 2 = 0 /\ z > 0 THEN << Rs("h", "x", <<2, -1>>, "args", "C"), Rs("h", "x", <<-1, 2>>, "tuple", "C"), Op("ht", "h", "T"), Rs("hs", "ht", s, "tuple", "C") >> ELSE <<>>)
  \o (IF Len(s) > 0 /\ s[1] > 0 THEN << It("i0", "x", 0), It("il", "x", s[1] - 1) >> ELSE <<>>)
Idxs(c, s, k, off) == LET ii == Some(IdxOf(s), k, off) IN [j \in DOMAIN ii |-> Ix("y", "x", ii[j])]

\* ---- walks: enabled operations depend on the current shape ----
Rnd(r) == (r * 1103 + 12345) % 32749
EnabledOps(s, r) ==
  LET n == Len(s)
      z == SizeOf(s)
      full == IF n > 0 /\ z > 0 THEN << Ix("y", "y", Some(IdxOf(IF n <= 3 THEN s ELSE <<>>), 1, r)[1]) >> ELSE <<>>
  IN << Op("y", "y", "T"), Op("y", "y", IF r % 2 = 0 THEN "flatten" ELSE "ravel") >>
     \o full \o full
     \o (IF n >= 2 THEN << Op("y", "y", "mT"), Rs("y", "y", RevSeq(s), "args", IF r % 3 = 0 THEN "F" ELSE "C") >> ELSE <<>>)
     \o (IF n <= 2 THEN << Rs("y", "y", <<1>> \o s, "tuple", "C"), Ix("y", "y", <<IEll, INew>>) >> ELSE <<>>)
     \o (IF n = 1 /\ z % 2 = 0 /\ z > 0 THEN << Rs("y", "y", <<2, -1>>, "args", "C") >> ELSE <<>>)
     \o (IF n = 2 /\ z > 0 THEN << Ix("y", "y", <<IArr(<<0, s[1] - 1, 0>>, <<3>>)>>) >> ELSE <<>>)
RECURSIVE Walk(_, _, _)
Walk(s, r, k) ==
  IF k = 0 THEN <<>>
  ELSE LET es == EnabledOps(s, r)
           st == es[(r % Len(es)) + 1]
           ns == ArrMap(st, s).shape
       IN <<st>> \o Walk(ns, Rnd(r + k), k - 1)
RepTgt(c) == IF c \in {"CartesianPos3D", "CylindricalPos", "SphericalPos", "LonLatSphericalPos", "MathSphericalPos", "ProlateSpheroidalPos"}
             THEN (IF c = "CartesianPos3D" THEN "SphericalPos" ELSE "CartesianPos3D")
             ELSE IF c = "PolarPos" THEN "CartesianPos2D" ELSE IF c = "RadialPos" THEN "CartesianPos1D" ELSE c
RepS(c) == IF c \in {"CartesianPos3D", "CylindricalPos", "SphericalPos", "LonLatSphericalPos", "MathSphericalPos", "ProlateSpheroidalPos", "PolarPos", "RadialPos"}
           THEN << [op |-> "rep", d |-> "z", a |-> <<"y">>, cls |-> RepTgt(c), mode |-> "eager"] >> ELSE <<>>
Cp == [op |-> "arr", d |-> "y", f |-> "index", a |-> <<"x">>, idx |-> <<IEll>>]

ShapesA == << <<>>, <<4>>, <<2, 3>>, <<2, 2>>, <<2, 1, 3>>, <<3, 2, 2>>, <<0>>, <<2, 0>>, <<1>>, <<1, 3>>, <<5, 1>> >>
Cls == AllCls \o AllND
KIdx == IF Thorough THEN 200 ELSE 7
ScMain == FlattenAll([ci \in DOMAIN Cls |->
  LET c == Cls[ci]
      sh(k) == At(ShapesA, k)
      \* every class sees 2-D and 3-D batches; the other shapes rotate
      ks == IF Thorough THEN Ident(Len(ShapesA)) ELSE <<3, 6, ((ci * 5) % 11) + 1, ((ci * 5 + 3) % 11) + 1>>
  IN [j \in DOMAIN ks |->
       S0("arr-" \o c \o "-" \o ToString(j) \o "-" \o ToString(ks[j]), ci + j, 64,
          << LitAny("x", c, sh(ks[j]), SpreadOf(c, sh(ks[j])), ci + j, U(ci + 2 * j)) >> \o Rearr(sh(ks[j]))
          \o Idxs(c, sh(ks[j]), KIdx, ci * 3 + j))]])
\* all index expressions on a few classes
ScIdx == FlattenAll([k \in 1..3 |->
  LET c == <<"CartesianPos3D", "CartesianPosND", "SphericalPos">>[k]
      ss == << <<2, 3>>, <<4>>, <<3, 2, 2>> >>
  IN FlattenAll([j \in 1..3 |->
       LET ix == IdxOf(ss[j])
           half == (Len(ix) + 1) \div 2
       IN [h \in 1..2 |-> S0("idx-" \o c \o "-" \o ToString(j) \o ToString(h), k + j, 64,
             << LitAny("x", c, ss[j], SpreadOf(c, ss[j]), k + j, U(k + j)) >>
             \o [m \in 1..(IF h = 1 THEN half ELSE Len(ix) - half) |-> Ix("y", "x", ix[IF h = 1 THEN m ELSE half + m])])]])])
NW == IF Thorough THEN 12 ELSE 1
ScWalk == FlattenAll([ci \in DOMAIN Cls |->
  [w \in 1..NW |->
    LET c == Cls[ci]
        s == At(<< <<2, 3>>, <<2, 2>>, <<4>>, <<3, 2, 2>> >>, ci + w)
    IN S0("walk-" \o c \o "-" \o ToString(w), ci + w, IF (ci + w) % 5 = 0 THEN 64 ELSE 64,
          << LitAny("x", c, s, SpreadOf(c, s), ci + w + SEED, U(ci + w)), Cp >> \o Walk(s, (SEED * 37 + ci * 101 + w * 977) % 32749, 8) \o RepS(c)) ]])
ScBc == [k \in 1..6 |-> LET c == <<"CartesianPos2D", "CartesianPos3D", "SphericalPos", "PolarPos", "CylindricalPos", "MathSphericalPos">>[k]
  IN S0("bc-" \o c, k, 64, << LitAny("x", c, <<3>>, SpreadOf(c, <<3>>), k, U(k)), Bc("y", "x", <<2, 3>>), Bc("w", "x", <<3>>),
        LitAny("x", c, <<2, 1>>, SpreadOf(c, <<2, 1>>), k, U(k)), Bc("y", "x", <<2, 3>>), Meta("y"), Bc("z", "x", <<4, 2, 1>>),
        LitAny("x", c, <<>>, SpreadOf(c, <<>>), k, U(k)), Bc("y", "x", <<2>>) >>)]
Scenarios == ScMain \o ScIdx \o ScWalk \o ScBc
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
