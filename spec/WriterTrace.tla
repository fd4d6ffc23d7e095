---------------------------- MODULE WriterTrace ----------------------------
(* Trace validation for the writer: every trace is a Bvh, options and the text that the library wrote for
   them.  TLC takes the writer of BvhWriter through the text, line by line, and compares every character.

   A trace: b the Bvh; indent the text of one indent, term the line terminator; off, mo: for each number of
   the class its acceptable texts (more than one only where rounding has a tie), ft likewise for the frame
   time; text what was written.  Blanks and line ends are given as single characters: space in sp. *)
EXTENDS BvhWriter, Json, IOUtils

CONSTANT Focus
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, w, p, n, bad
vars == << t, w, p, n, bad >>
T == Traces[t]

Init == t \in DOMAIN Traces /\ w = StartWriting /\ p = 1 /\ n = 1 /\ bad = << >>

Is(x, at) == at + Len(x) - 1 <= Len(T.text) /\ SubSeq(T.text, at, at + Len(x) - 1) = x
Accepted(piece) ==
  CASE piece.c = "lit" -> { piece.v }
    [] piece.c = "off" -> Range(T.off[piece.v])
    [] piece.c = "mo" -> Range(T.mo[piece.v])
    [] piece.c = "ft" -> Range(T.ft)
(* The position after one of the texts, the longest that is there; 0 if none is. *)
Past(texts, at) ==
  LET hits == { Len(x) : x \in { y \in texts : Is(y, at) } } IN
  IF at = 0 \/ hits = {} THEN 0 ELSE at + Max(hits)
RECURSIVE Indented(_, _)
Indented(at, d) == IF d = 0 THEN at ELSE Indented(Past({ T.indent }, at), d - 1)
RECURSIVE Pieces(_, _, _)
Pieces(ps, i, at) ==
  IF i > Len(ps) THEN at
  ELSE Pieces(ps, i + 1, Past(Accepted(ps[i]), IF i = 1 THEN at ELSE Past({ T.sp }, at)))
(* "CHANNELS 0" may end with the space that would separate it from the first channel. *)
MayTrail(ps) == Len(ps) = 2 /\ ps[1].v = "CHANNELS"
End(at, trailing) == IF trailing /\ Past({ T.sp \o T.term }, at) # 0 THEN Past({ T.sp \o T.term }, at) ELSE Past({ T.term }, at)

Emit(pc) ==
  /\ w.pc = pc /\ bad = << >>
  /\ LET line == Written(T.b, w)
         q == End(Pieces(line.ps, 1, Indented(p, line.depth)), MayTrail(line.ps))
     IN  IF q = 0 THEN bad' = << pc, n >> /\ UNCHANGED << t, w, p, n >>
         ELSE w' = After(T.b, w) /\ p' = q /\ n' = n + 1 /\ UNCHANGED << t, bad >>
HierarchyLine == Emit("Hierarchy")
DeclareLine == Emit("Declare")
OpenLine == Emit("Open")
OffsetLine == Emit("Offset")
ChannelsLine == Emit("Channels")
SiteLine == Emit("Site")
SiteOpenLine == Emit("SiteOpen")
SiteOffsetLine == Emit("SiteOffset")
SiteCloseLine == Emit("SiteClose")
CloseLine == Emit("Close")
MotionLine == Emit("Motion")
FramesLine == Emit("Frames")
TimeLine == Emit("Time")
RowLine == Emit("Row")
(* Nothing may follow. *)
Rest == w.pc = "Done" /\ bad = << >> /\ p <= Len(T.text) /\ bad' = << "Rest", n >> /\ UNCHANGED << t, w, p, n >>
Next ==
  \/ HierarchyLine \/ DeclareLine \/ OpenLine \/ OffsetLine \/ ChannelsLine \/ SiteLine \/ SiteOpenLine
  \/ SiteOffsetLine \/ SiteCloseLine \/ CloseLine \/ MotionLine \/ FramesLine \/ TimeLine \/ RowLine \/ Rest
Spec == Init /\ [][Next]_vars
View == << t, n, bad >>

Over == bad # << >> \/ (w.pc = "Done" /\ p > Len(T.text))
Verdict ==
  Over =>
    PrintT("VERDICT " \o ToJson([ id |-> T.id, d |-> IF bad = << >> THEN << >> ELSE << bad[1] >>,
                                  at |-> bad, rest |-> IF bad = << >> THEN "" ELSE SubSeq(T.text, p, IF p + 200 > Len(T.text) THEN Len(T.text) ELSE p + 200),
                                  lines |-> n - 1 ]))
=============================================================================
