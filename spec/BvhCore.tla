------------------------------ MODULE BvhCore ------------------------------
(* The vocabulary shared by all parts of the specification: channels, joints, skeletons as
   sequences of joints in document order, and what it means for a skeleton to be coherent.

   Numbers are never interpreted by the specification: a single-precision value is the string of its
   eight hexadecimal digits, a frame time is the decimal string of its nanoseconds.  Equality is
   therefore equality of bits. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

ChannelNames ==
  << "Xposition", "Yposition", "Zposition", "Xrotation", "Yrotation", "Zrotation" >>
IsChannel(name) == \E i \in DOMAIN ChannelNames : ChannelNames[i] = name

Axes == << "X", "Y", "Z" >>
Zero == "00000000"
ZeroOffset == << Zero, Zero, Zero >>

(* A joint.  es is the sequence of end site coordinates, or empty when there is no end site.
   par is the index (from zero) of the parent, -1 for the root.  first is the motion column of the
   first channel.  sealed says that a child or end site has been declared, after which OFFSET and
   CHANNELS no longer belong to the joint; listed says that CHANNELS was given. *)
NewJoint(name, par) ==
  [ name |-> name, par |-> par, off |-> ZeroOffset, es |-> << >>, site |-> FALSE,
    ch |-> << >>, first |-> 0, sealed |-> FALSE, listed |-> FALSE ]

(* The skeleton that a user can observe. *)
Skeleton(joints) ==
  [ i \in DOMAIN joints |->
      [ name |-> joints[i].name, par |-> joints[i].par, off |-> joints[i].off,
        es |-> joints[i].es, ch |-> joints[i].ch ] ]

NumChannels(joints) == FoldLeft(LAMBDA a, j : a + Len(j.ch), 0, joints)

(* The motion column of the first channel of each joint, in order. *)
FirstColumns(joints) ==
  FoldLeft(LAMBDA a, j : Append(a, a[Len(a)] + Len(j.ch)), << 0 >>, joints)

(* par and all sequences below use indices from zero, as the library does. *)
Parent(joints, i) == joints[i + 1].par
Indices(joints) == 0 .. Len(joints) - 1
Children(joints, p) ==
  SelectSeq([ i \in 1 .. Len(joints) |-> i - 1 ], LAMBDA i : Parent(joints, i) = p)

RECURSIVE Depth(_, _)
Depth(joints, i) == IF Parent(joints, i) < 0 THEN 0 ELSE 1 + Depth(joints, Parent(joints, i))

RECURSIVE Ancestors(_, _)
Ancestors(joints, i) ==
  IF Parent(joints, i) < 0 THEN {} ELSE {Parent(joints, i)} \cup Ancestors(joints, Parent(joints, i))

(* Depth-first numbering: the parent of a joint is the previous joint or one of its ancestors. *)
DepthFirst(joints) ==
  /\ Len(joints) > 0 => Parent(joints, 0) = -1
  /\ \A i \in 1 .. Len(joints) - 1 :
       /\ Parent(joints, i) >= 0
       /\ Parent(joints, i) < i
       /\ Parent(joints, i) \in {i - 1} \cup Ancestors(joints, i - 1)

(* Chunks(v, n): v cut into pieces of n values (n > 0 divides the length). *)
Chunks(v, n) ==
  IF n = 0 THEN << >> ELSE [ f \in 1 .. Len(v) \div n |-> SubSeq(v, (f - 1) * n + 1, f * n) ]
Flatten(frames) == FoldLeft(LAMBDA a, f : a \o f, << >>, frames)
=============================================================================
