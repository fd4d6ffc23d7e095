------------------------------- MODULE BvhText -------------------------------
(* Texts of a model as the bytes and tokens that the lexer and the loader work on. *)
EXTENDS Naturals, Sequences, SequencesExt, TLC

LOCAL Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
LOCAL Codes ==
  [ c \in { SubSeq(Printable, i, i) : i \in 1 .. Len(Printable) } \cup { "\t", "\n", "\f", "\r" } |->
      CASE c = "\t" -> 9 [] c = "\n" -> 10 [] c = "\f" -> 12 [] c = "\r" -> 13
        [] OTHER -> 31 + CHOOSE i \in 1 .. Len(Printable) : SubSeq(Printable, i, i) = c ]
Bytes(text) == [ i \in 1 .. Len(text) |-> Codes[SubSeq(text, i, i)] ]

(* Numbers of models are short runs of digits; their value is the text itself. *)
IsNumeral(x) == Len(x) > 0 /\ \A i \in 1 .. Len(x) : SubSeq(x, i, i) \in { ToString(d) : d \in 0 .. 9 }
Numeral(x) ==
  FoldLeft(LAMBDA a, i : 10 * a + (Codes[SubSeq(x, i, i)] - 48), 0, [ i \in 1 .. Len(x) |-> i ])
TokenOf(x) ==
  LET n == IsNumeral(x) IN
  [ s |-> x, f |-> IF n THEN x ELSE "bad", u |-> IF n THEN x ELSE "bad", n |-> IF n THEN Numeral(x) ELSE 0,
    t |-> IF n THEN x ELSE "bad" ]

Joined(parts, sep) ==
  FoldLeft(LAMBDA a, i : IF i = 1 THEN parts[1] ELSE a \o sep \o parts[i], "", [ i \in DOMAIN parts |-> i ])
=============================================================================
