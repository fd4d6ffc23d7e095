----------------------------- MODULE BvhLiteral -----------------------------
(* The literal syntax: what a bvh! literal evaluates to.

   The expansion of the macro is a sequence of calls of a builder, which keeps the joints pushed so far, the
   nesting depth and the number of channels.  It has no stack of open blocks: a joint's parent is the
   joint pushed last whose depth is one less.  (The loader's specification does have a stack; LiteralMC
   checks that the two agree on every literal.)

   Frames are inserted by a cursor in pieces of one frame, and their number is compared with the declared one. *)
EXTENDS BvhCore

EmptyBuilder == [ joints |-> << >>, depth |-> 0, nch |-> 0 ]
LastJoint(b) == Len(b.joints)
BuilderParent(b) == LET at == { i \in DOMAIN b.joints : b.joints[i].depth = b.depth - 1 }
                    IN  IF at = {} THEN -1 ELSE Max(at) - 1

(* The calls. *)
PushJoint(b, name) ==
  [ b EXCEPT !.joints = Append(@, [ name |-> name, par |-> BuilderParent(b), depth |-> b.depth, off |-> ZeroOffset,
                                    es |-> << >>, ch |-> << >>, first |-> 0 ]) ]
Enter(b) == [ b EXCEPT !.depth = @ + 1 ]
Leave(b) == [ b EXCEPT !.depth = @ - 1 ]
SetOffset(b, o) == [ b EXCEPT !.joints[LastJoint(b)].off = o ]
PushChannels(b, chs) ==
  [ b EXCEPT !.joints[LastJoint(b)].ch = chs, !.joints[LastJoint(b)].first = b.nch, !.nch = @ + Len(chs) ]
SetSite(b, o) == [ b EXCEPT !.joints[LastJoint(b)].es = o ]

(* The frames of a literal, or that it has none because it does not evaluate. *)
NoFrames == [ ok |-> FALSE, frames |-> << >> ]
LiteralFrames(b, declared, values) ==
  IF values = << >> THEN [ ok |-> declared = 0, frames |-> << >> ]
  ELSE IF b.nch = 0 \/ Len(values) % b.nch # 0 \/ Len(values) \div b.nch # declared THEN NoFrames
  ELSE [ ok |-> TRUE, frames |-> Chunks(values, b.nch) ]
=============================================================================
