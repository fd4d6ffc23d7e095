-------------------------------- MODULE LineMC --------------------------------
(* One line, word by word, wherever in a file it may stand.

   A context is a place: the lines before, and the words of which a line is made there.  The lines are
   all those of up to so many words, joined by blanks, tabs or colons.  Each makes a text for the real
   loader, with the lines of the context after it. *)
EXTENDS BvhLoader, BvhLexer, BvhText, Json

Errors == INSTANCE BvhErrors

CONSTANTS
  Contexts,       \* sequence of [ before, first, rest, joiners, max ]
  Emit

VARIABLES c, line, n, e
vars == << c, line, n, e >>

Tok(x) == IF x = "1.5" THEN [ s |-> x, f |-> x, u |-> "bad", n |-> 0, t |-> x ] ELSE TokenOf(x)
Read(st, text, ln) ==
  IF Final(st) THEN st
  ELSE LET l == Lex(Bytes(text), text, << 1, Len(text) >>, Tok) IN Step(st, LineKind(st, l), l, ln)
At(x) == FoldLeft(LAMBDA a, i : Read(a, Contexts[x].before[i], i - 1), Start, [ i \in DOMAIN Contexts[x].before |-> i ])
Place == [ x \in DOMAIN Contexts |-> At(x) ]
Here == Place[c]
K == Contexts[c]
Ln == Len(K.before)

Result(st) == IF st.pc = "Failed" THEN st.err.kind ELSE st.pc
Out == Emit => PrintT("CASE " \o ToJson([ c |-> c, line |-> line', k |-> Result(e') ]))

Init == c \in DOMAIN Contexts /\ line = "" /\ n = 0 /\ e = Read(Here, "", Ln)
Begin == n = 0 /\ \E w \in ToSet(K.first) : line' = w
More == n > 0 /\ n < K.max /\ \E w \in ToSet(K.rest), j \in ToSet(K.joiners) : line' = line \o j \o w
Next ==
  /\ Begin \/ More
  /\ n' = n + 1 /\ UNCHANGED c
  /\ e' = Read(Here, line', Ln)
  /\ Out
Spec == Init /\ [][Next]_vars
View == << c, line >>

---------------------------------------------------------------------------
(* The places are where a file may still go well. *)
Places == ~ Final(Here)
(* A line is wrong because of itself, and the error says so. *)
OwnLine == e.pc = "Failed" => e.err.line = Ln /\ Errors!WellDescribed(e.err)
(* The first word that is wrong is the one reported, whatever follows; only where something is missing
   may more words help. *)
Lacking == { "MissingJointName", "MissingOffsetAxis", "ParseNumChannelsError", "UnexpectedKeyword", "MissingMotionSection",
             "MissingNumFrames", "MissingFrameTime" }
Separate == SubSeq(line', Len(line) + 1, Len(line) + 1) # ":"
FirstWrong == [][ n > 0 /\ Separate /\ e.pc = "Failed" /\ e.err.kind \notin Lacking => e'.err = e.err ]_vars
(* Nor do more words undo what a line does, except MOTION, which stands alone, channels and values,
   and names: a line that is accepted is either wrong later or does the same. *)
Settled == { "OFFSET", "End", "{", "}", "HIERARCHY", "Frames:", "Frames", "Frame" }
Same ==
  [][ n > 0 /\ Separate /\ e.pc # "Failed" /\ ~ Final(e)
      /\ (\E w \in Settled : Len(line) >= Len(w) /\ SubSeq(line, 1, Len(w)) = w)
      => e' = e ]_vars
(* A line without a keyword is none, in the hierarchy. *)
Others == InHierarchy(Here) /\ line \in { "", "foo", "x", "1", "foo 1" } => [ e EXCEPT !.last = Here.last ] = Here
=============================================================================
