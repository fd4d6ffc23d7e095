------------------------------- MODULE IterMC -------------------------------
(* Every way to take up to MaxFrames frames from both ends, and the law: what was taken from the front, what
   is left, and what was taken from the back in reverse are all the frames except those skipped, in order,
   each once.  Emits the history leading to each transition. *)
EXTENDS BvhFrames, FiniteSets, TLC, Json

CONSTANTS MaxFrames, MaxSkip, Memory, Emit
VARIABLES n, it, front, back, hist, over
vars == << n, it, front, back, hist, over >>

Init == n \in 0 .. MaxFrames /\ it = Iter(0, n) /\ front = << >> /\ back = << >> /\ hist = << >> /\ over = FALSE

FromBack == { "b", "nthb", "rev", "rfold", "last" }
Commands ==
  { << x, 0 >> : x \in { "n", "b", "count", "last", "rest", "fold", "foreach", "rev", "rfold" } }
  \cup { << x, y >> : x \in { "nth", "nthb", "find", "skip", "take", "zip", "byref_take" }, y \in 0 .. MaxSkip }
  \cup { << "step", y >> : y \in 1 .. MaxSkip }
Next ==
  /\ ~ over
  /\ \E x \in Commands :
       LET y == Take(it, x[1], x[2]) IN
       /\ it' = y.it
       /\ IF x[1] \in FromBack THEN back' = back \o y.at /\ UNCHANGED front
          ELSE front' = front \o y.at /\ UNCHANGED back
       /\ hist' = Append(hist, x)
       /\ over' = Consuming(x[1])
       /\ UNCHANGED n
       /\ Emit => PrintT("CASE " \o ToJson([ n |-> n, h |-> hist' ]))
Spec == Init /\ [][Next]_vars
Constraint == Len(hist) <= 2 * MaxFrames
View == << n, it, over, SubSeq(hist, IF Len(hist) > Memory THEN Len(hist) - Memory + 1 ELSE 1, Len(hist)), IF Emit THEN << >> ELSE << front, back >> >>

Ascending(s) == \A i \in 1 .. Len(s) - 1 : s[i] < s[i + 1]
Inside(s) == \A i \in DOMAIN s : s[i] \in 0 .. n - 1
(* Every frame at most once, in order from each end, the two ends never crossing; nothing already taken is
   left; and what is left is contiguous. *)
EachOnce ==
  /\ Ascending(front) /\ Ascending(Reverse(back)) /\ Inside(front) /\ Inside(back)
  /\ Ascending(front \o All(it) \o Reverse(back))
  /\ Left(it) >= 0 /\ it.lo \in 0 .. n /\ it.hi \in 0 .. n
(* A command without skipping takes a frame as long as there is one. *)
Takes ==
  [][LET x == hist'[Len(hist')] IN
     /\ x[1] \in { "n", "b" } => Len(front') + Len(back') - Len(front) - Len(back) = Min2(1, Left(it)) /\ Left(it') = Left(it) - Min2(1, Left(it))
     /\ x[1] = "nth" => Left(it') = (IF x[2] < Left(it) THEN Left(it) - x[2] - 1 ELSE 0)
     /\ x[1] = "nthb" => Left(it') = (IF x[2] < Left(it) THEN Left(it) - x[2] - 1 ELSE 0)
     /\ x[1] \in { "rest", "rev" } => Len(front') + Len(back') = Len(front) + Len(back) + Left(it)]_vars
(* Once there is nothing left, nothing comes any more. *)
Fused == [][Left(it) = 0 => front' = front /\ back' = back /\ Left(it') = 0]_vars
=============================================================================
