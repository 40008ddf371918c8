------------------------------- MODULE FrLib -------------------------------
(* A lattice of Galactocentric frames.                                       *)
EXTENDS OpsLib
h0 == AngZero
h1 == A(4,5,3,5)
h2 == <<<<399, 401>>, <<40, 401>>, 0>>
h3 == <<<<12, 13>>, <<-5, 13>>, -1>>
latS == <<<<4, 5>>, <<-3, 5>>, -1>>
latN == A(3,5,4,5)
B0 == [lon |-> a1, lat |-> AngZero, d |-> Z(8), roll |-> Ang90, h |-> h0, v |-> ZV(1, 2, 3)]
Frs == << B0,
   [lon |-> Ang270, lat |-> latS, d |-> Z(10), roll |-> AngZero, h |-> h1, v |-> ZV(10, -2, 7)],
   [lon |-> a2, lat |-> latN, d |-> Z(5), roll |-> A(3,5,-4,5), h |-> h0, v |-> <<R0, <<5, 2>>, Z(-1)>>],
   [lon |-> Ang180, lat |-> AngZero, d |-> <<401, 10>>, roll |-> AngZero, h |-> h2, v |-> ZV(12, 220, 7)],
   [lon |-> a3, lat |-> latS, d |-> Z(20), roll |-> Ang180, h |-> h0, v |-> VZero(3)],
   [lon |-> AngZero, lat |-> AngZero, d |-> Z(13), roll |-> a1, h |-> h3, v |-> ZV(0, 100, 0)] >>
\* one parameter changed at a time
Vary(p, k) == CASE k = 1 -> [p EXCEPT !.lon = AngAdd(p.lon, Ang90)] [] k = 2 -> [p EXCEPT !.lat = IF p.lat = AngZero THEN latN ELSE AngZero]
                [] k = 3 -> [p EXCEPT !.d = RAdd(p.d, Z(2)), !.h = IF S(p.h) = R0 THEN p.h ELSE AngZero]
                [] k = 4 -> [p EXCEPT !.roll = AngAdd(p.roll, Ang90)] [] k = 5 -> [p EXCEPT !.h = IF S(p.h) = R0 THEN h1 ELSE h0] [] k = 6 -> [p EXCEPT !.v = VAdd(p.v, ZV(0, 1, -2))]
=============================================================================
