---------------------------- MODULE EqualityTrace ----------------------------
(* Trace validation for comparisons.  A trace: two Bvhs as observed, and how they and all their joints,
   frames and channels compare, those numbered by js, fs and cs, each of the first with each of the second. *)
EXTENDS BvhEquality, Json, IOUtils
CONSTANT Focus
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, pc, d
vars == << t, pc, d >>
T == Traces[t]
When(x, y) == IF x THEN { y } ELSE {}

Skel(snap) ==
  [ i \in DOMAIN snap.joints |->
      LET j == snap.joints[i] IN [ name |-> j.name, par |-> j.par, off |-> j.off, es |-> j.es, ch |-> j.ch ] ]
Seen(snap) == [ sk |-> Skel(snap), nch |-> snap.nc, ft |-> snap.ft, frames |-> snap.frames ]
A == Seen(T.a)
B == Seen(T.b)
(* The picked ones there are in a sequence of so many. *)
Picked(at, n) == LET ks == SelectSeq(at, LAMBDA k : k < n) IN [ i \in DOMAIN ks |-> ks[i] + 1 ]
O == T.o
Channels(x) == FoldLeft(LAMBDA s, j : s \o j.ch, << >>, x.sk)

Init == t \in DOMAIN Traces /\ pc = "bvh" /\ d = {}
Step(p, q, bad) == pc = p /\ pc' = q /\ d' = d \cup bad /\ UNCHANGED t
(* Both ways, and the opposite of not being equal. *)
Bvhs ==
  LET e == Equal(A, B) IN
  Step("bvh", "joints", When(O.eq # << e, e, ~ e, ~ e >>, "bvh") \cup When(O.self # << Equal(A, A), Equal(B, B), Equal(A, A), Equal(B, B) >>, "bvh"))
Joints ==
  LET p == Picked(T.js, Len(A.sk)) q == Picked(T.js, Len(B.sk)) IN
  Step("joints", "frames",
       When(\E i \in DOMAIN p, j \in DOMAIN q :
              LET c == JointsCompare(A.sk, p[i] - 1, B.sk, q[j] - 1) IN
              c # "open" /\ O.joints[i][j] # << c = "same", c # "same" >>, "joint")
       \cup When(\E i \in DOMAIN p : O.jself[i] # SameJoint(A.sk[p[i]], A.sk[p[i]]), "joint"))
Frames ==
  LET p == Picked(T.fs, Len(A.frames)) q == Picked(T.fs, Len(B.frames)) IN
  Step("frames", "channels",
       UNION { LET e == SameFrame(A.frames[p[i]], B.frames[q[j]]) IN
               When(O.frames[i][j] # << e, ~ e >>, "frame") \cup When(O.framesmut[i][j] # << e, ~ e >>, "framemut")
               : i \in DOMAIN p, j \in DOMAIN q }
       \cup UNION { LET e == SameFrame(A.frames[p[i]], A.frames[p[i]]) IN When(O.fself[i] # e, "frame") \cup When(O.mself[i] # e, "framemut") : i \in DOMAIN p })
(* Channels are equal if type and column are, and then hash to the same. *)
ChannelPairs ==
  LET x == Channels(A) y == Channels(B) p == Picked(T.cs, Len(x)) q == Picked(T.cs, Len(y)) IN
  Step("channels", "end",
       UNION { LET v == x[p[i]] w == y[q[j]] IN
               When(O.channels[i][j] # << v = w, v[1] = w[1] >>, "channel") : i \in DOMAIN p, j \in DOMAIN q }
       \cup When(~ O.hash, "hash"))
Next == Bvhs \/ Joints \/ Frames \/ ChannelPairs
Spec == Init /\ [][Next]_vars
View == << t, pc >>
Verdict == pc = "end" => PrintT("VERDICT " \o ToJson([ id |-> T.id, d |-> SetToSeq(d \cap Focus) ]))
=============================================================================
