------------------------------ MODULE CursorMC ------------------------------
(* Every way to move, insert and remove with a cursor, on up to MaxFrames frames of Width values, and the
   laws that make the commands list edits.  The laws are stated without the definitions of BvhCursor: what
   happens to the sequence of frames, to the frames before and after the cursor, and to the index.

   Emits the history that leads to each transition; states are told apart by the number of frames, the
   position and the last Memory commands. *)
EXTENDS BvhCursor, TLC, Json

CONSTANTS MaxFrames, Width, Memory, Emit

VARIABLES cu, last, n0, hist, fresh
vars == << cu, last, n0, hist, fresh >>

Frame(id) == [ j \in 1 .. Width |-> id * 10 + j ]
Short(id) == [ j \in 1 .. Width - 1 |-> id * 10 + j ]
Long(id) == [ j \in 1 .. Width + 1 |-> id * 10 + j ]

Init ==
  /\ n0 \in 0 .. MaxFrames
  /\ cu = Cursor(IF Width = 0 THEN << >> ELSE [ k \in 1 .. n0 |-> Frame(k) ], Width)
  /\ last = << >> /\ hist = << >> /\ fresh = n0 + 1

(* c: the command, arg: what distinguishes its uses. *)
Do(c, arg, new, used) ==
  /\ Len(new.frames) <= MaxFrames
  /\ cu' = new
  /\ last' = << c, arg >>
  /\ hist' = Append(hist, << c, arg >>)
  /\ fresh' = fresh + used
  /\ UNCHANGED n0
  /\ Emit => PrintT("CASE " \o ToJson([ n |-> n0, w |-> Width, h |-> hist' ]))

Make(kinds) ==
  [ j \in DOMAIN kinds |-> CASE kinds[j] = "ok" -> Frame(fresh + j)
                             [] kinds[j] = "short" -> Short(fresh + j)
                             [] kinds[j] = "long" -> Long(fresh + j) ]
One == IF Width = 0 THEN { "ok", "long" } ELSE { "ok", "short", "long" }
Many == { << >> } \cup { << x >> : x \in One } \cup { << x, y >> : x, y \in One } \cup { << "ok", "ok", "ok" >>, << "ok", "short", "ok" >> }

Next ==
  \/ Do("next", << >>, MoveNext(cu), 0)
  \/ Do("prev", << >>, MovePrev(cu), 0)
  \/ Do("first", << >>, MoveFirst(cu), 0)
  \/ Do("last", << >>, MoveLast(cu), 0)
  \/ \E x \in One : Do("ins", << x >>, Insert(cu, Make(<< x >>)[1]), 1)
  \/ \E xs \in Many : (Width > 0 \/ ~ \E j \in DOMAIN xs : xs[j] = "short")
                      /\ Do("insm", xs, InsertMany(cu, Make(xs)), Len(xs))
  \/ Do("rm", << >>, RemoveOne(cu), 0)
  \/ Do("rmall", << >>, RemoveAll(cu), 0)
  \/ Do("shrink", << >>, Ok(cu), 0)
  \/ Width > 0 /\ \E k \in { 0, Width } : Do("setn", << k >>, SetAt(cu, cu.i, k, 7), 0) \/ Do("setp", << k >>, SetAt(cu, cu.i - 1, k, 8), 0)
Spec == Init /\ [][Next]_vars

(* Short histories suffice to reach every state. *)
Constraint == Len(hist) <= 2 * MaxFrames + 6
View == << Len(cu.frames), cu.i, SubSeq(hist, IF Len(hist) > Memory THEN Len(hist) - Memory + 1 ELSE 1, Len(hist)), IF Memory = 0 THEN n0 ELSE 0 >>

---------------------------------------------------------------------------
TypeOk == InBounds(cu)

(* Laws over the frames before (L) and after (R) the cursor. *)
L(x) == SubSeq(x.frames, 1, x.i)
R(x) == SubSeq(x.frames, x.i + 1, Len(x.frames))
Same == cu'.frames = cu.frames
Moved == last'[1] \in { "next", "prev", "first", "last" }
Laws ==
  /\ Moved => Same
  /\ last'[1] = "next" => cu'.i - cu.i = (IF R(cu) = << >> THEN 0 ELSE 1)
  /\ last'[1] = "prev" => cu.i - cu'.i = (IF L(cu) = << >> THEN 0 ELSE 1)
  /\ last'[1] = "first" => L(cu') = << >>
  /\ last'[1] = "last" => R(cu') = << >>
  /\ last'[1] \in { "ins", "insm" } =>
       /\ R(cu') = R(cu)                                        \* what follows stays
       /\ SubSeq(L(cu'), 1, Len(L(cu))) = L(cu)                 \* what precedes stays
       /\ LET xs == last'[2]
              good == { j \in 0 .. Len(xs) : \A m \in 1 .. j : xs[m] = "ok" }
              m == CHOOSE j \in good : \A z \in good : z <= j
          IN  /\ Len(L(cu')) - Len(L(cu)) = (IF Width = 0 THEN 0 ELSE m)
              /\ (cu'.err = "") = (m = Len(xs))
              /\ cu'.err # "" => cu'.bad = << Width, Width + (IF xs[m + 1] = "long" THEN 1 ELSE -1) >>
  /\ last'[1] = "rm" =>
       /\ L(cu') = L(cu) /\ cu'.i = cu.i
       /\ IF R(cu) = << >> THEN Same /\ cu'.err = "range" ELSE R(cu') = Tail(R(cu)) /\ cu'.err = ""
  /\ last'[1] = "rmall" => cu'.frames = << >> /\ cu'.i = 0
  /\ last'[1] \in { "setn", "setp" } =>
       /\ cu'.i = cu.i /\ Len(cu'.frames) = Len(cu.frames)
       /\ \A f \in DOMAIN cu.frames : cu'.frames[f] # cu.frames[f] =>
            f = (IF last'[1] = "setn" THEN cu.i + 1 ELSE cu.i)
IsListEdit == [][Laws]_vars
=============================================================================
