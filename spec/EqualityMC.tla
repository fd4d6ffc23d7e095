----------------------------- MODULE EqualityMC -----------------------------
(* Two Bvhs, and a copy of the first, changed a field at a time.  Emits every pair that is reached. *)
EXTENDS BvhEquality, Json
CONSTANTS MaxChanges, Emit

VARIABLES a, b, n
vars == << a, b, n >>

Numbers == { Zero, MinusZero, "3f800000", "3f800001", "7fc00000" }
Lists == { << >>, << "Xposition" >>, << "Xrotation" >>, << "Xposition", "Yrotation" >> }
Places == [ r |-> << -1 >>, c |-> << -1, 0 >>, f |-> << -1, 0, 0 >>, l |-> << -1, 0, 1 >> ]

Joint(par) == [ name |-> "j", par |-> par, off |-> ZeroOffset, es |-> << >>, ch |-> << "Xposition" >> ]
Width(x) == FoldLeft(LAMBDA m, j : m + Len(j.ch), 0, x.sk)
(* After a change to the channels, values are left out or added at the end of each frame. *)
Fit(x) ==
  LET w == Width(x) IN
  [ x EXCEPT !.nch = w,
      !.frames = IF w = 0 THEN << >> ELSE [ f \in DOMAIN @ |-> [ k \in 1 .. w |-> IF k <= Len(@[f]) THEN @[f][k] ELSE Zero ] ] ]
Start(place, frames) ==
  LET sk == [ i \in DOMAIN Places[place] |-> Joint(Places[place][i]) ] IN
  Fit([ sk |-> sk, nch |-> 0, ft |-> "1", frames |-> [ f \in 1 .. frames |-> << >> ] ])

Init == \E p \in DOMAIN Places : \E f \in 0 .. 2 : a = Start(p, f) /\ b = a /\ n = 0

Changed(x) ==
     { [ x EXCEPT !.sk[i].name = v ] : i \in DOMAIN x.sk, v \in { "j", "k" } }
  \cup { [ x EXCEPT !.sk[i].off[k] = v ] : i \in DOMAIN x.sk, k \in { 1, 3 }, v \in Numbers }
  \cup { [ x EXCEPT !.sk[i].es = v ] : i \in DOMAIN x.sk, v \in { << >> } \cup { << Zero, Zero, y >> : y \in Numbers } }
  \cup { Fit([ x EXCEPT !.sk[i].ch = v ]) : i \in DOMAIN x.sk, v \in Lists }
  \cup { [ x EXCEPT !.ft = v ] : v \in { "1", "2" } }
  \cup UNION { { [ x EXCEPT !.frames[f][k] = v ] : k \in DOMAIN x.frames[f], v \in Numbers } : f \in DOMAIN x.frames }
  \cup (IF x.nch > 0 THEN { [ x EXCEPT !.frames = SubSeq(@, 1, k) ] : k \in 0 .. Len(x.frames) } ELSE {})
  \cup (IF Len(x.sk) = 3 THEN { [ x EXCEPT !.sk[3].par = v ] : v \in { 0, 1 } } ELSE {})

Change ==
  /\ n < MaxChanges /\ n' = n + 1
  /\ \/ b' \in Changed(b) \ { b } /\ UNCHANGED a
     \/ a' \in Changed(a) \ { a } /\ UNCHANGED b
Spec == Init /\ [][Change]_vars
View == << a, b >>

NoNaN(x) == Equal(x, x)
Laws ==
  /\ Equal(a, b) = Equal(b, a)
  /\ a = b /\ NoNaN(a) => Equal(a, b)
  /\ Equal(a, b) => NoNaN(a) /\ NoNaN(b)
  /\ Equal(a, b) =>
       \A i \in DOMAIN a.sk : JointsCompare(a.sk, i - 1, b.sk, i - 1) = "same"
  /\ ~ Equal(a, b) /\ Len(a.sk) = Len(b.sk) /\ a.ft = b.ft =>
       \/ \E i \in DOMAIN a.sk : JointsCompare(a.sk, i - 1, b.sk, i - 1) = "differ"
       \/ Len(a.frames) # Len(b.frames)
       \/ \E f \in DOMAIN a.frames : ~ SameFrame(a.frames[f], b.frames[f])
Emitted == Emit => PrintT("CASE " \o ToJson([ a |-> a, b |-> b ]))
=============================================================================
