--------------------------- MODULE BvhVocabulary ---------------------------
(* Channel names.  A name is recognised letter by letter: first the letter of the axis, then one of two
   tails.  What a channel is follows from the path taken, not from a table of names. *)
EXTENDS BvhCore

AxisLetters == { "X", "Y", "Z" }
Tails == { "position", "rotation" }

(* The recogniser: the axis read so far, the tails still possible, how many letters of the tail were read. *)
StartName == [ axis |-> "", tails |-> Tails, n |-> 0, ok |-> TRUE ]
ReadLetter(r, x) ==
  IF ~ r.ok THEN r
  ELSE IF r.axis = "" THEN (IF x \in AxisLetters THEN [ r EXCEPT !.axis = x ] ELSE [ r EXCEPT !.ok = FALSE ])
  ELSE LET left == { y \in r.tails : Len(y) > r.n /\ SubSeq(y, r.n + 1, r.n + 1) = x } IN
       IF left = {} THEN [ r EXCEPT !.ok = FALSE ] ELSE [ r EXCEPT !.tails = left, !.n = @ + 1 ]
Recognised(r) == r.ok /\ \E y \in r.tails : Len(y) = r.n
Letters(word) == [ i \in 1 .. Len(word) |-> SubSeq(word, i, i) ]
Read(word) == FoldLeft(ReadLetter, StartName, Letters(word))

(* What the channel is that has been recognised. *)
One == "3f800000"
Meaning(r) ==
  [ name |-> r.axis \o (CHOOSE y \in r.tails : Len(y) = r.n),
    axis |-> r.axis,
    vec |-> [ i \in 1 .. 3 |-> IF Axes[i] = r.axis THEN One ELSE Zero ],
    rot |-> "rotation" \in r.tails,
    pos |-> "position" \in r.tails ]
=============================================================================
