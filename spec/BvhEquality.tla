---------------------------- MODULE BvhEquality ----------------------------
(* Comparing Bvhs and their parts: by content, and numbers as numbers, so that both zeros are the same and
   NaN is equal to nothing. *)
EXTENDS BvhCore

MinusZero == "80000000"
IsNaN(x) ==
  /\ SubSeq(x, 1, 2) \in { "7f", "ff" }
  /\ SubSeq(x, 3, 3) \in { "8", "9", "a", "b", "c", "d", "e", "f" }
  /\ SubSeq(x, 3, 8) # "800000"
SameNumber(a, b) == ~ IsNaN(a) /\ ~ IsNaN(b) /\ (a = b \/ { a, b } = { Zero, MinusZero })
SameSeq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : SameNumber(a[i], b[i])
SameFrame(a, b) == SameSeq(a, b)

SameContent(a, b) == a.name = b.name /\ SameSeq(a.off, b.off) /\ SameSeq(a.es, b.es) /\ a.ch = b.ch
SameJoint(a, b) == a.par = b.par /\ SameContent(a, b)

RECURSIVE Path(_, _)
Path(joints, i) == IF Parent(joints, i) < 0 THEN << >> ELSE Append(Path(joints, Parent(joints, i)), Parent(joints, i))
(* A joint taken by itself: its content and its place.  Nothing says whether joints with the same parent's
   number, but other ancestors beyond it, are the same: "open". *)
JointsCompare(xs, i, ys, j) ==
  IF i # j \/ ~ SameJoint(xs[i + 1], ys[j + 1]) THEN "differ"
  ELSE IF Path(xs, i) # Path(ys, j) THEN "open" ELSE "same"

Equal(a, b) ==
  /\ Len(a.sk) = Len(b.sk) /\ \A i \in DOMAIN a.sk : SameJoint(a.sk[i], b.sk[i])
  /\ a.nch = b.nch /\ a.ft = b.ft
  /\ Len(a.frames) = Len(b.frames) /\ \A i \in DOMAIN a.frames : SameFrame(a.frames[i], b.frames[i])
=============================================================================
