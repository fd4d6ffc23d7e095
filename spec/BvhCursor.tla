------------------------------ MODULE BvhCursor ------------------------------
(* The frame cursor as a position in a list of frames.  A cursor state is a record: frames, the position i
   (the number of frames before the cursor) and nch, the number of values in a frame.  A Bvh without
   channels has no frames, and inserting frames without values has no effect. *)
EXTENDS Naturals, Integers, Sequences, SequencesExt

InsertAtPos(f, i, x) == SubSeq(f, 1, i) \o << x >> \o SubSeq(f, i + 1, Len(f))
DeleteAtPos(f, i) == SubSeq(f, 1, i) \o SubSeq(f, i + 2, Len(f))

Cursor(frames, nch) == [ frames |-> frames, i |-> 0, nch |-> nch, err |-> "", bad |-> << >> ]
Count(cu) == Len(cu.frames)
Ok(cu) == [ cu EXCEPT !.err = "", !.bad = << >> ]

MoveNext(cu) == [ Ok(cu) EXCEPT !.i = IF @ < Count(cu) THEN @ + 1 ELSE @ ]
MovePrev(cu) == [ Ok(cu) EXCEPT !.i = IF @ > 0 THEN @ - 1 ELSE @ ]
MoveFirst(cu) == [ Ok(cu) EXCEPT !.i = 0 ]
MoveLast(cu) == [ Ok(cu) EXCEPT !.i = Count(cu) ]

(* bad holds the numbers that the error has to name. *)
Insert(cu, x) ==
  IF Len(x) # cu.nch THEN [ cu EXCEPT !.err = "length", !.bad = << cu.nch, Len(x) >> ]
  ELSE IF cu.nch = 0 THEN Ok(cu)
  ELSE [ Ok(cu) EXCEPT !.frames = InsertAtPos(@, cu.i, x), !.i = @ + 1 ]

(* Several frames: one after another, up to the first that does not fit. *)
InsertMany(cu, xs) ==
  FoldLeft(LAMBDA a, x : IF a.err # "" THEN a ELSE Insert(a, x), Ok(cu), xs)

RemoveOne(cu) ==
  IF cu.i >= Count(cu) THEN [ cu EXCEPT !.err = "range", !.bad = << cu.i >> ]
  ELSE [ Ok(cu) EXCEPT !.frames = DeleteAtPos(@, cu.i) ]
RemoveAll(cu) == [ Ok(cu) EXCEPT !.frames = << >>, !.i = 0 ]

PeekNext(cu) == IF cu.i < Count(cu) THEN << cu.frames[cu.i + 1] >> ELSE << >>
PeekPrev(cu) == IF cu.i > 0 THEN << cu.frames[cu.i] >> ELSE << >>
Rest(cu) == SubSeq(cu.frames, cu.i + 1, Count(cu))

(* Setting value c of the frame at position p (from zero) through a mutable peek. *)
SetAt(cu, p, c, v) ==
  IF p < 0 \/ p >= Count(cu) THEN [ Ok(cu) EXCEPT !.err = "noframe" ]
  ELSE IF c >= cu.nch THEN [ cu EXCEPT !.err = "channel", !.bad = << c >> ]
  ELSE [ Ok(cu) EXCEPT !.frames[p + 1][c + 1] = v ]

InBounds(cu) == cu.i \in 0 .. Count(cu) /\ \A k \in DOMAIN cu.frames : Len(cu.frames[k]) = cu.nch
=============================================================================
