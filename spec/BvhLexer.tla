------------------------------ MODULE BvhLexer ------------------------------
(* From bytes to lines of tokens.  Bytes are numbers 0..255.  A physical line ends at a line feed;
   blanks are space, tab, carriage return, form feed and line feed.  In the hierarchy and in the
   "Frames" line a colon separates tokens as well.

   Lines and words are spans << first, last >> of positions in the input (last < first if empty).
   Texts are TLA+ strings with one character per byte: the input is given both as the sequence of its
   bytes and as such a string, of which the text of a span is a substring. *)
EXTENDS Naturals, Sequences, SequencesExt, TLC

LF == 10
IsBlank(b) == b <= 32 /\ (b = 32 \/ (b >= 9 /\ b <= 13 /\ b # 11))
IsSeparator(b) == b = 58 \/ (b <= 32 /\ (b = 32 \/ (b >= 9 /\ b <= 13 /\ b # 11)))

Positions(from, to) == [ i \in 1 .. (IF to < from THEN 0 ELSE to - from + 1) |-> from + i - 1 ]

(* Spans of the physical lines among the first n bytes, without their line feed.  What follows the last
   line feed is a line only if it is not empty (and Rest asks for it). *)
Lines(bytes, n, Rest) ==
  LET r == FoldLeft(LAMBDA a, i : IF bytes[i] # LF THEN a
                                  ELSE << i + 1, Append(a[2], << a[1], i - 1 >>) >>,
                    << 1, << >> >>, Positions(1, n))
  IN  IF Rest /\ r[1] <= n THEN Append(r[2], << r[1], n >>) ELSE r[2]
PhysicalLines(bytes) == Lines(bytes, Len(bytes), TRUE)
(* Only the lines that are terminated by a line feed. *)
CompleteLines(bytes, n) == Lines(bytes, n, FALSE)

(* Spans of the maximal runs of bytes that are not separators within a span. *)
Words(bytes, span, Sep(_)) ==
  LET r == FoldLeft(LAMBDA a, i :
                      IF Sep(bytes[i])
                      THEN IF a[1] = 0 THEN a ELSE << 0, Append(a[2], << a[1], i - 1 >>) >>
                      ELSE IF a[1] = 0 THEN << i, a[2] >> ELSE a,
                    << 0, << >> >>, Positions(span[1], span[2]))
  IN  IF r[1] = 0 THEN r[2] ELSE Append(r[2], << r[1], span[2] >>)

(* The name on a ROOT or JOINT line: what follows the keyword and any separators, up to a blank. *)
NameSpan(bytes, span, words) ==
  IF Len(words) < 2 THEN << 1, 0 >>
  ELSE LET start == words[2][1]
           stop == FoldLeft(LAMBDA a, i : IF a = 0 /\ IsBlank(bytes[i]) THEN i ELSE a, 0,
                            Positions(start, span[2]))
       IN  << start, IF stop = 0 THEN span[2] ELSE stop - 1 >>

(* A lexed line: h tokens (blanks and colons separate), w tokens (blanks separate), name. *)
Lex(bytes, text, span, Tok(_)) ==
  LET h == Words(bytes, span, IsSeparator)
      w == Words(bytes, span, IsBlank)
      n == NameSpan(bytes, span, h)
  IN  [ h |-> [ i \in DOMAIN h |-> Tok(SubSeq(text, h[i][1], h[i][2])) ],
        w |-> [ i \in DOMAIN w |-> Tok(SubSeq(text, w[i][1], w[i][2])) ],
        nm |-> SubSeq(text, n[1], n[2]) ]
=============================================================================
