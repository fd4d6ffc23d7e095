------------------------------ MODULE BvhFrames ------------------------------
(* Frame iterators and access to the values of a frame.

   An iterator over frames is the window of frames not yet taken: positions lo .. hi - 1 (from zero).
   Values written through a mutable iterator change the frames. *)
EXTENDS Naturals, Integers, Sequences, SequencesExt

Iter(lo, hi) == [ lo |-> lo, hi |-> hi ]
Left(it) == it.hi - it.lo
Min2(a, b) == IF a < b THEN a ELSE b

(* Each taking command yields the positions taken, in order, and the window that is left. *)
Yield(at, lo, hi) == [ at |-> at, it |-> Iter(lo, hi) ]
TakeFront(it, k) ==                 \* skip k from the front and take one
  IF k < Left(it) THEN Yield(<< it.lo + k >>, it.lo + k + 1, it.hi) ELSE Yield(<< >>, it.hi, it.hi)
TakeBack(it, k) ==                  \* skip k from the back and take one
  IF k < Left(it) THEN Yield(<< it.hi - 1 - k >>, it.lo, it.hi - 1 - k) ELSE Yield(<< >>, it.lo, it.lo)
FirstFew(it, k) ==
  LET m == Min2(k, Left(it)) IN Yield([ j \in 1 .. m |-> it.lo + j - 1 ], it.lo + m, it.hi)

All(it) == [ j \in 1 .. Left(it) |-> it.lo + j - 1 ]
Empty(it) == Yield(<< >>, it.hi, it.hi)
DropFew(s, k) == IF k >= Len(s) THEN << >> ELSE SubSeq(s, k + 1, Len(s))
EveryNth(s, k) == [ j \in 1 .. (IF s = << >> THEN 0 ELSE 1 + (Len(s) - 1) \div k) |-> s[(j - 1) * k + 1] ]

Take(it, c, k) ==
  CASE c = "n" -> TakeFront(it, 0)
    [] c = "b" -> TakeBack(it, 0)
    [] c = "nth" -> TakeFront(it, k)
    [] c = "nthb" -> TakeBack(it, k)
    [] c = "find" -> TakeFront(it, k)
    [] c = "byref_take" -> FirstFew(it, k)
    (* these use the iterator up *)
    [] c = "count" -> Empty(it)
    [] c = "last" -> Yield(IF Left(it) = 0 THEN << >> ELSE << it.hi - 1 >>, it.hi, it.hi)
    [] c \in {"rest", "fold", "foreach"} -> Yield(All(it), it.hi, it.hi)
    [] c \in {"rev", "rfold"} -> Yield(Reverse(All(it)), it.hi, it.hi)
    [] c = "skip" -> Yield(DropFew(All(it), k), it.hi, it.hi)
    [] c = "step" -> Yield(EveryNth(All(it), k), it.hi, it.hi)
    [] c \in {"take", "zip"} -> Yield(FirstFew(it, k).at, it.hi, it.hi)
Consuming(c) == c \in {"count", "last", "rest", "fold", "foreach", "rev", "rfold", "skip", "step", "take", "zip"}

(* Writing values into the frames at the positions `at`: sets is a sequence of << column, value, how >>.
   A column that does not exist is refused without effect. *)
WriteFrame(f, sets) ==
  FoldLeft(LAMBDA a, x : IF x[1] < Len(a) THEN [ a EXCEPT ![x[1] + 1] = x[2] ] ELSE a, f, sets)
WriteFrames(frames, at, sets) ==
  FoldLeft(LAMBDA a, p : [ a EXCEPT ![p + 1] = WriteFrame(@, sets) ], frames, at)

---------------------------------------------------------------------------
(* The values of one frame.  A selection is a span lo .. hi - 1 of columns, or invalid (lo > hi or
   hi > the number of values). *)
Span(f, r, a, b) ==
  CASE r = "one" -> << a, a + 1 >>
    [] r = "r" -> << a, b >>
    [] r = "ri" -> << a, b + 1 >>
    [] r = "rf" -> << a, Len(f) >>
    [] r = "rt" -> << 0, b >>
    [] r = "rti" -> << 0, b + 1 >>
    [] r = "full" -> << 0, Len(f) >>
Valid(f, sp) == sp[1] <= sp[2] /\ sp[2] <= Len(f)
Select(f, sp) == SubSeq(f, sp[1] + 1, sp[2])
Store(f, sp, v) == [ j \in DOMAIN f |-> IF j > sp[1] /\ j <= sp[2] THEN v ELSE f[j] ]
=============================================================================
