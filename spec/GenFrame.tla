------------------------------ MODULE GenFrame ------------------------------
(* P16: changes of reference frame.                                          *)
EXTENDS FrLib
KMS == [len |-> "pc", time |-> "pc s / km"]
FU == << [d |-> "pc", z |-> "pc", v |-> "km/s", ang |-> "deg"], [d |-> "kpc", z |-> "pc", v |-> "km/s", ang |-> "rad"],
         [d |-> "lyr", z |-> "AU", v |-> "pc/Myr", ang |-> "deg"], [d |-> "pc", z |-> "kpc", v |-> "AU/yr", ang |-> "arcmin"] >>
MkIcrs(d, form) == [op |-> "mkframe", d |-> d, t |-> "icrs", form |-> form]
MkNone(d) == [op |-> "mkframe", d |-> d, t |-> "none"]
MkF(d, p, i) == [op |-> "mkframe", d |-> d, t |-> "gcf", lon |-> p.lon, lat |-> p.lat, roll |-> p.roll, h |-> p.h, v |-> p.v,
                 form |-> At(<<"ctor", "map", "copy", "astropy", "ctor", "ctor">>, i), gc |-> At(<<"lonlat", "angle", "map">>, i), vhow |-> At(<<"q", "vec", "q">>, i), u |-> At(FU, i)]
\* the step's `d` is its register, so the distance travels as `dist`
F(d, p, i) == [dist |-> p.d] @@ MkF(d, p, i)
MkOpq(d, id, over, form, respell, z) ==
  [op |-> "mkframe", d |-> d, t |-> "opaque", id |-> id, over |-> over, form |-> form, respell |-> respell, dist |-> Z(8122), z |-> z, v |-> <<<<129, 10>>, <<1228, 5>>, <<389, 50>>>>]
Op2(d, x, y, form) == [op |-> "mkop", d |-> d, t |-> "frame", a |-> <<x, y>>, form |-> form]
Get1(d, f, what) == [op |-> "frget", d |-> d, a |-> <<f>>, f |-> what]

V3(i) == At(<<ZV(1, 2, -1), ZV(-2, 0, 3), ZV(4, -1, 1), ZV(0, 3, 2)>>, i)
UP(i) == At(<< [len |-> <<"pc">>, ang |-> <<"deg">>, time |-> "Myr", spd |-> "km/s"], [len |-> <<"kpc", "pc">>, ang |-> <<"rad">>, time |-> "Myr", spd |-> "pc/Myr"],
               [len |-> <<"lyr">>, ang |-> <<"hourangle">>, time |-> "kyr", spd |-> "AU/yr"] >>, i)
UVf(i) == [len |-> <<UP(i).spd>>, spd |-> UP(i).spd, ang |-> UP(i).ang, time |-> UP(i).time]
\* a position with a velocity: of its own class or Cartesian; bare quantities
PosVel(c, i) == << LitScalar("q", c, PtsC(c, i)[1], Z(2), UP(i)), LitV("p", "CartesianVel3D", <<V3(i)>>, <<>>, UVf(i)),
                   LitV("w", VelOfPos(c), <<V3(i + 1)>>, <<>>, IF c = "CartesianPos3D" THEN UVf(i + 1) ELSE UP(i)),
                   LitOf("qb", c, PtsC(c, i), Z(2), UP(i + 1)), LitV("pb", "CartesianVel3D", <<V3(i), V3(i + 1), V3(i + 2)>>, <<3>>, UVf(i)) >>
Bare(i) == << LitL("Q", <<3>>, V3(i + 1), UP(i).len[1]), [op |-> "litq", d |-> "P", shape |-> <<3>>, vals |-> V3(i + 2), kind |-> "len/t", u |-> UP(i).spd],
              LitL("QB", <<2, 3>>, V3(i) \o V3(i + 3), UP(i).len[1]), [op |-> "litq", d |-> "PB", shape |-> <<2, 3>>, vals |-> V3(i + 2) \o V3(i), kind |-> "len/t", u |-> UP(i).spd] >>
\* the change there, on everything; and back by the opposite change and by the inverse
OnFr(o, z) == << App("x", <<o, "q">>, "eager"), App("y", <<z, "x">>, "eager"), App("x", <<o, "q", "p">>, "eager"), App("y", <<z, "x">>, "eager"),
                 App("x", <<o, "q", "w">>, "jit"), App("y", <<z, "x">>, "jit"), App("x", <<o, "Q">>, "eager"), App("y", <<z, "x">>, "eager"),
                 App("x", <<o, "Q", "P">>, "eager"), App("y", <<z, "x">>, "eager") >>
OnBatch(o, z) == << App("x", <<o, "qb", "pb">>, "vmap"), App("y", <<z, "x">>, "vmap"), App("x", <<o, "QB", "PB">>, "vmap"), App("x", <<o, "QB">>, "jitvmap"), App("x", <<o, "qb">>, "vmap") >>
Facts(f) == << Get1("gc", f, "galcen"), Get1("vs", f, "v"), Get1("zs", f, "z"), App("x", <<"IF", "gc">>, "eager"), LitV("v0", "CartesianVel3D", <<VZero(3)>>, <<>>, UVf(1)),
               LitScalar("sun", "CartesianPos3D", VZero(3), R1, UP(1)), App("x", <<"IF", "sun", "v0">>, "eager"), App("y", <<"FI", "x">>, "eager"), App("x", <<"IF", "gc", "v0">>, "eager") >>
NT == IF Thorough THEN 6 ELSE 1
Cl(i) == At(C3Seq, i)
ScOne == FlattenAll([r \in 1..NT |-> [n \in DOMAIN Frs |->
  LET i == n + r + SEED - 2
      c == Cl(n + 5 * r)
  IN S0("fr" \o ToString(r) \o "-" \o ToString(n), KMS, 0, 64,
     << MkIcrs("I", At(<<"ctor", "map", "copy", "astropy">>, i)), F("F", Frs[n], i), Op2("IF", "I", "F", At(<<"method", "func">>, i)), Op2("FI", "F", "I", "method"), Mk1("Z", "inv", "IF"), Mk1("ZZ", "inv", "Z") >>
     \o PosVel(c, i) \o Bare(i) \o OnFr("IF", "FI") \o OnFr("FI", "IF") \o << App("x", <<"IF", "q", "p">>, "eager"), App("y", <<"Z", "x">>, "eager"), App("y", <<"ZZ", "q", "p">>, "eager"), App("x", <<"Z", "Q", "P">>, "eager") >>
     \o (IF n % 3 = r % 3 THEN OnBatch("IF", "FI") ELSE <<>>) \o Facts("F") \o
     << Mk1("SM", "simp", "IF"), App("x", <<"SM", "q", "p">>, "eager"), MkOr("LOOP", "IF", "FI"), App("x", <<"LOOP", "q", "p">>, "eager"), App("x", <<"LOOP", "Q">>, "eager") >>)]])
\* frame to frame: direct, through the ICRS, through a third one; back
Pairs == << <<1, 2, 3>>, <<2, 3, 5>>, <<5, 1, 2>>, <<6, 5, 1>>, <<1, 4, 5>>, <<3, 6, 1>> >>
Between(i, c, mk, third) == mk \o
     << Op2("FG", "F", "G", At(<<"func", "method">>, i)), Op2("GF", "G", "F", "method"), Op2("FI", "F", "I", "method"), Op2("IG", "I", "G", "method"), Mk1("Z", "inv", "FG") >> \o PosVel(c, i) \o Bare(i)
     \o << App("x", <<"FG", "q">>, "eager"), App("x", <<"FG", "q", "p">>, "eager"), App("y", <<"GF", "x">>, "eager"), App("y", <<"Z", "x">>, "eager"), App("x", <<"FI", "q", "p">>, "eager"), App("x", <<"IG", "x">>, "eager"),
           App("x", <<"FG", "Q", "P">>, "jit"), App("y", <<"GF", "x">>, "eager"), App("x", <<"FG", "Q">>, "eager"), App("x", <<"FG", "q", "w">>, "eager"), MkOr("VIA", "FI", "IG"), App("x", <<"VIA", "q", "p">>, "eager"),
           Mk1("SM", "simp", "FG"), App("x", <<"SM", "q", "p">>, "eager") >> \o third
ScTwo == FlattenAll([r \in 1..NT |-> [n \in DOMAIN Pairs |->
  LET i == n + r + SEED - 2
  IN S0("ff" \o ToString(r) \o "-" \o ToString(n), KMS, 0, 64,
     Between(i, Cl(n + r), << MkIcrs("I", "ctor"), F("F", Frs[Pairs[n][1]], i), F("G", Frs[Pairs[n][2]], i + 1), F("H", Frs[Pairs[n][3]], i + 2) >>,
       << Op2("GH", "G", "H", "method"), Op2("FH", "F", "H", "method"), App("x", <<"FG", "q", "p">>, "eager"), App("x", <<"GH", "x">>, "eager"), App("x", <<"FH", "q", "p">>, "eager"), MkOr("FGH", "FG", "GH"), App("x", <<"FGH", "q", "p">>, "eager") >>))]])
\* one parameter apart
ScVary == FlattenAll([r \in 1..(IF Thorough THEN 6 ELSE 1) |-> [k \in 1..6 |->
  LET i == k + r + SEED
      p == At(Frs, IF Thorough THEN r ELSE SEED + k)
  IN S0("fv" \o ToString(r) \o "-" \o ToString(k), KMS, 0, 64,
     << MkIcrs("I", "ctor"), F("F", p, 1), F("G", Vary(p, k), 1), Op2("FG", "F", "G", "method"), Op2("GF", "G", "F", "method") >> \o PosVel(Cl(k), i) \o
     << App("x", <<"FG", "q", "p">>, "eager"), App("y", <<"GF", "x">>, "eager"), App("x", <<"GF", "q", "p">>, "eager") >>)]])
\* equal frames, frames equal but for units, the ICRS, and no frame
ScSame == [n \in 1..(IF Thorough THEN 6 ELSE 2) |->
  LET i == n + SEED
      c == Cl(n)
  IN S0("fe" \o ToString(n), KMS, 0, 64,
     << MkIcrs("I", "ctor"), MkIcrs("J", "copy"), MkNone("N"), MkNone("M"), F("F", At(Frs, i), 1), F("G", At(Frs, i), 1), F("H", At(Frs, i), 2), F("E", At(Frs, i), 4) >> \o PosVel(c, i) \o Bare(i) \o
     << LitScalar("qc", "CartesianPos3D", Pts3Reg[3], R1, UP(i)), Op2("o", "I", "J", "method"), App("x", <<"o", "q">>, "eager"), App("x", <<"o", "q", "w">>, "eager"), App("x", <<"o", "Q", "P">>, "eager"), App("x", <<"o", "qb", "pb">>, "eager"), Mk1("s", "simp", "o"),
        Op2("o", "F", "F", "method"), App("x", <<"o", "q", "p">>, "eager"), App("x", <<"o", "q">>, "eager"), Op2("o", "F", "G", "method"), App("x", <<"o", "q", "w">>, "eager"), App("x", <<"o", "Q">>, "eager"), App("x", <<"o", "QB", "PB">>, "eager"), Mk1("s", "inv", "o"), App("x", <<"s", "q", "w">>, "eager"),
        Op2("o", "F", "H", "func"), App("x", <<"o", "qc", "p">>, "eager"), App("x", <<"o", "Q", "P">>, "eager"), Op2("o", "H", "F", "method"), App("x", <<"o", "qc", "p">>, "eager"), Op2("o", "E", "F", "method"), App("x", <<"o", "qc", "p">>, "eager"), Op2("o", "F", "E", "method"), App("x", <<"o", "Q", "P">>, "eager"),
        Op2("o", "N", "I", "method"), Op2("o", "I", "N", "method"), Op2("o", "N", "F", "func"), Op2("o", "F", "N", "func"), Op2("o", "N", "M", "method"), Op2("o", "N", "N", "func") >>)]
\* the default frame and its neighbours
Dflt(d, form, rs) == MkOpq(d, "default", <<>>, form, rs, <<104, 5>>)
ScOpq == [n \in 1..(IF Thorough THEN 6 ELSE 3) |->
  LET i == n + SEED
      c == Cl(n + SEED)
  IN S0("fd" \o ToString(n), KMS, 0, 64,
     << MkIcrs("I", "ctor"), Dflt("F", At(<<"ctor", "map", "astropy">>, n), 0), MkOpq("G", "roll", [roll |-> Z(10)], "ctor", 0, <<104, 5>>), MkOpq("Hz", "z", [z_sun |-> Z(27)], "map", 0, Z(27)),
        F("L", At(Frs, i), i), Dflt("F2", "ctor", 1), Dflt("F3", "ctor", 0), [op |-> "frget", d |-> "fields", a |-> <<"F">>, f |-> "fields"], [op |-> "frget", d |-> "fields", a |-> <<"F2">>, f |-> "fields"],
        Op2("IF", "I", "F", "method"), Op2("FI", "F", "I", "method") >> \o PosVel(c, i) \o Bare(i) \o Facts("F") \o
     << App("x", <<"IF", "q", "p">>, "eager"), App("y", <<"FI", "x">>, "eager"), Mk1("Z", "inv", "IF"), App("y", <<"Z", "x">>, "eager"), App("x", <<"IF", "q", "w">>, "jit"), App("y", <<"FI", "x">>, "eager"), App("x", <<"IF", "q">>, "eager"), App("y", <<"FI", "x">>, "eager"),
        Op2("FG", "F", "G", "method"), Op2("GL", "G", "L", "method"), Op2("LF", "L", "F", "method"), App("x", <<"IF", "q", "p">>, "eager"), App("x", <<"FG", "x">>, "eager"), App("x", <<"GL", "x">>, "eager"), App("y", <<"LF", "x">>, "eager"), App("y", <<"FI", "y">>, "eager"),
        Op2("FH", "F", "Hz", "method"), Op2("HI", "Hz", "I", "method"), App("x", <<"IF", "q", "p">>, "eager"), App("x", <<"FH", "x">>, "eager"), App("y", <<"HI", "x">>, "eager"),
        Op2("o", "F", "F2", "method"), App("x", <<"IF", "q", "p">>, "eager"), App("x", <<"o", "x">>, "eager"), App("y", <<"FI", "x">>, "eager"), Op2("o", "F2", "F3", "func"), App("x", <<"o", "x">>, "eager"), App("y", <<"FI", "x">>, "eager"),
        Op2("LI", "L", "I", "method"), App("x", <<"LF", "q", "p">>, "eager"), Op2("FL", "F", "L", "method"), App("y", <<"FL", "x">>, "eager") >>)]
Scenarios == ScOne \o ScTwo \o ScVary \o ScSame \o ScOpq
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
