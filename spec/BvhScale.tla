------------------------------ MODULE BvhScale ------------------------------
(* Files far beyond the bounds of any enumeration, given by formulas instead of by their statements: what
   joint i, channel k or value (r, c) of such a file is can be computed without building the file.
   ScaleMC shows, for small sizes, that the formulas say the same as the loader specification does.

   A file is a record g: shape, n joints, a parameter p, w channels of the root, i % m channels of any other
   joint i, nf frames.
     "comb":  every p-th joint continues the spine, those between are leaves.  (p = 1 is a chain, p >= n a star.)
     "broom": a chain down to the middle, and then one leaf at every level on the way back. *)
EXTENDS BvhCore

Par(g, i) ==
  IF i = 0 THEN -1
  ELSE IF g.shape = "comb" THEN ((i - 1) \div g.p) * g.p
  ELSE IF i <= g.n \div 2 THEN i - 1 ELSE 2 * (g.n \div 2) - i
NumKids(g, i) ==
  IF g.shape = "comb" THEN (IF i % g.p = 0 THEN Min({ g.p, g.n - 1 - i }) ELSE 0)
  ELSE IF i >= g.n \div 2 THEN 0 ELSE IF 2 * (g.n \div 2) - i < g.n THEN 2 ELSE 1
Kid(g, i, k) ==                             \* the k-th child, from one
  IF g.shape = "comb" THEN i + k ELSE IF k = 1 THEN i + 1 ELSE 2 * (g.n \div 2) - i

NumCh(g, i) == IF i = 0 THEN g.w ELSE i % g.m
FirstCol(g, i) ==
  IF i = 0 THEN 0
  ELSE LET q == i \div g.m  r == i % g.m IN g.w + q * ((g.m * (g.m - 1)) \div 2) + (r * (r - 1)) \div 2
Columns(g) == FirstCol(g, g.n)
Type(k) == ChannelNames[1 + (((k * 5) + (k \div 7)) % 6)]

Name(i) == "j" \o ToString(i)
Off(i) == << ToString(i % 1000), ToString(i % 7), ToString(i % 11) >>
EndSite(g, i) == IF NumKids(g, i) = 0 /\ i % 2 = 0 THEN << ToString(i % 13), "0", "1" >> ELSE << >>

(* Where things are in the file: each joint takes four lines and a brace, and four more if it has an end site. *)
DepthOf(g, i) ==
  IF i = 0 THEN 0
  ELSE IF g.shape = "comb" THEN ((i - 1) \div g.p) + 1
  ELSE IF i <= g.n \div 2 THEN i ELSE 2 * (g.n \div 2) - i + 1
Lcm2(p) == IF p % 2 = 0 THEN p ELSE 2 * p
SitesBefore(g, i) ==                        \* among the joints before i < n
  IF i <= 1 THEN 0
  ELSE IF g.shape = "comb" THEN ((i - 1) \div 2) - ((i - 1) \div Lcm2(g.p))
  ELSE LET from == Max({ g.n \div 2, 1 }) IN IF i <= from THEN 0 ELSE ((i - 1) \div 2) - ((from - 1) \div 2)
Sites(g) == SitesBefore(g, g.n - 1) + IF EndSite(g, g.n - 1) # << >> THEN 1 ELSE 0
LineOf(g, i) == 1 + (5 * i) + (4 * SitesBefore(g, i)) - DepthOf(g, i)
MotionLine(g) == 1 + (5 * g.n) + (4 * Sites(g))
RowLine(g, r) == MotionLine(g) + 3 + r

(* The error for such a file with one defect x: a bad coordinate k of joint i, a bad name of its k-th channel,
   a bad number of channels, no name; a bad value k in row i; a value too few or too many at the end; the reader
   fails after i whole lines. *)
Plain == [ sec |-> "Joints", kind |-> "", line |-> -1, axis |-> "", idx |-> -1, act |-> "", exp |-> "", fr |-> "", cl |-> "", bad |-> "" ]
ErrorOf(g, x) ==
  CASE x.what = "axis" -> [ Plain EXCEPT !.kind = "ParseOffsetError", !.line = LineOf(g, x.i) + 2, !.axis = Axes[x.k + 1] ]
    [] x.what = "channel" -> [ Plain EXCEPT !.kind = "ParseChannelError", !.line = LineOf(g, x.i) + 3, !.bad = "Xpos" ]
    [] x.what = "count" -> [ Plain EXCEPT !.kind = "ParseNumChannelsError", !.line = LineOf(g, x.i) + 3 ]
    [] x.what = "name" -> [ Plain EXCEPT !.kind = "MissingJointName", !.line = LineOf(g, x.i) ]
    [] x.what = "value" -> [ Plain EXCEPT !.sec = "Motion", !.kind = "ParseMotionSection", !.line = RowLine(g, x.i), !.idx = x.k ]
    [] x.what = "io" -> [ Plain EXCEPT !.sec = IF x.i < MotionLine(g) THEN "Joints" ELSE "Motion", !.kind = "Io" ]
    [] x.what \in { "short", "long" } ->
         [ Plain EXCEPT !.sec = "Motion", !.kind = "MotionCountMismatch", !.fr = ToString(g.nf), !.cl = ToString(Columns(g)),
             !.exp = ToString(g.nf * Columns(g)), !.act = ToString((g.nf * Columns(g)) + IF x.what = "short" THEN -1 ELSE 1) ]

Val(g, r, c) == ToString((r * Columns(g) + c) % 9973)
=============================================================================
