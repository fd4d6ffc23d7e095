------------------------------ MODULE LayoutMC ------------------------------
(* The statements of a file laid out in every way: blank lines before a line, blanks before, between
   and after its tokens, the end of the line, and the division of the motion's numbers into lines.

   Every line is written with every layout, from every state; what the lexer and the loader make of the
   bytes must be what the loader makes of the bare tokens.  `text` is the history; it is not part of the
   VIEW, so that each state is reached once and takes every layout from there. *)
EXTENDS BvhLoader, BvhLexer, BvhText, Json

CONSTANTS
  Files,          \* sequence of [ head: sequence of lines of tokens, vals: sequence of numbers ]
  Blanks,         \* what may precede a line
  Leads, Seps, Trails, Ends,
  Emit

VARIABLES x, i, k, s, text, phase
vars == << x, i, k, s, text, phase >>

F == Files[x]
Bare(ts) == 
  LET h == SelectSeq(ts, LAMBDA w : w # ":") IN
  [ h |-> [ j \in DOMAIN h |-> TokenOf(IF h[j] = "Frames:" THEN "Frames" ELSE IF h[j] = "Time:" THEN "Time" ELSE h[j]) ],
    w |-> [ j \in DOMAIN ts |-> TokenOf(ts[j]) ],
    nm |-> IF Len(ts) >= 2 THEN ts[2] ELSE "" ]
Read(st, line, n) == IF Final(st) THEN st ELSE Step(st, LineKind(st, line), line, n)
(* What a loader does with a text. *)
ReadText(st, t, n) ==
  LET b == Bytes(t)
      ls == PhysicalLines(b)
  IN  FoldLeft(LAMBDA a, j : Read(a, Lex(b, t, ls[j], TokenOf), n + j - 1), st, [ j \in DOMAIN ls |-> j ])
(* What it does with bare tokens. *)
BareState(f, lines, row) ==
  LET a == FoldLeft(LAMBDA st, j : Read(st, Bare(Files[f].head[j]), j - 1), Start, [ j \in 1 .. lines |-> j ])
  IN  IF row = 0 THEN a ELSE Read(a, Bare(SubSeq(Files[f].vals, 1, row)), lines)
(* Line numbers depend on the layout; nothing else does. *)
Strip(st) == [ st EXCEPT !.last = 0, !.err.line = 0, !.err.idx = 0 ]

Laid(ts, blank, lead, sep, trail, end) == blank \o lead \o Joined(ts, sep) \o trail \o end

Init == x \in DOMAIN Files /\ i = 0 /\ k = 0 /\ s = Start /\ text = "" /\ phase = "lines"

(* The rest of the file, plainly. *)
Rest(lines, row) ==
  LET ls == SubSeq(F.head, lines + 1, Len(F.head))
      vs == SubSeq(F.vals, row + 1, Len(F.vals))
  IN  FoldLeft(LAMBDA a, j : a \o Joined(ls[j], " ") \o "\n", "", [ j \in DOMAIN ls |-> j ])
      \o (IF vs = << >> THEN "" ELSE Joined(vs, " ") \o "\n")

Out(t, lines, row) ==
  Emit => PrintT("CASE " \o ToJson([ text |-> t \o Rest(lines, row) ]))

Write(ts, lines, row) ==
  \E blank \in Blanks, lead \in Leads, sep \in Seps, trail \in Trails, end \in Ends \cup (IF lines = Len(F.head) /\ row = Len(F.vals) THEN {""} ELSE {}) :
    LET t == Laid(ts, blank, lead, sep, trail, end) IN
    /\ i' = lines /\ k' = row
    /\ s' = ReadText(s, t, s.last + 1)
    /\ text' = text \o t
    /\ phase' = IF lines = Len(F.head) /\ row = Len(F.vals) THEN "end" ELSE "lines"
    /\ Out(text', lines, row)
    /\ UNCHANGED x
WriteLine == phase = "lines" /\ i < Len(F.head) /\ Write(F.head[i + 1], i + 1, 0)
WriteRow == phase = "lines" /\ i = Len(F.head) /\ \E m \in k + 1 .. Len(F.vals) : Write(SubSeq(F.vals, k + 1, m), i, m)
Finish ==
  /\ phase = "end" /\ ~ Final(s)
  /\ s' = AtEof(s)
  /\ phase' = "over"
  /\ UNCHANGED << x, i, k, text >>
Next == WriteLine \/ WriteRow \/ Finish
Spec == Init /\ [][Next]_vars
View == << x, i, k, phase, Strip(s) >>

(* The layout does not matter. *)
SameAsBare ==
  LET b == BareState(x, i, k) IN Strip(s) = Strip(IF phase = "over" /\ ~ Final(b) THEN AtEof(b) ELSE b)
(* Nor does reading the text as a whole instead of line by line.  (Checked on every transition: the text
   is not part of the VIEW.) *)
SameAsWhole ==
  [][ phase' \in { "end", "over" } =>
        LET w == ReadText(Start, text', 0) IN
        Strip(s') = Strip(IF phase' = "over" /\ ~ Final(w) THEN AtEof(w) ELSE w) ]_vars
=============================================================================
