------------------------------ MODULE SourceMC ------------------------------
(* The loader reading from a source that delivers its bytes in pieces of any size, may be interrupted
   at any point, and may fail at any byte.

   The loader asks the source for bytes only when what it has contains no complete line.  What it does
   must depend only on the bytes: neither on how they are cut into pieces nor on interruptions, and on
   a failure only through the lines completed before it.  `pieces` is the history (0: interruption); it
   is not part of the VIEW. *)
EXTENDS BvhLoader, BvhLexer, BvhText, Json

CONSTANTS
  Texts,          \* sequence of texts
  MaxPiece,       \* a piece is 1 .. MaxPiece bytes, or all the rest
  MaxIntr,        \* interruptions
  Failing,        \* whether the source may fail
  Emit

VARIABLES x, fault, got, from, ln, s, intr, pieces
vars == << x, fault, got, from, ln, s, intr, pieces >>

Input == [ i \in DOMAIN Texts |-> Bytes(Texts[i]) ]
B == Input[x]
Limit == IF fault < 0 THEN Len(B) ELSE fault
LineAt(bytes, text, span) == Lex(bytes, text, span, TokenOf)
Take(st, i, span, n) ==
  LET line == LineAt(Input[i], Texts[i], span) IN
  IF Final(st) THEN st ELSE Step(st, LineKind(st, line), line, n)
RunLines(i, spans) ==
  FoldLeft(LAMBDA a, k : Take(a, i, spans[k], k - 1), Start, [ k \in DOMAIN spans |-> k ])

(* The outcome as LoaderTrace defines it, without a source. *)
AfterLines == [ i \in DOMAIN Texts |->
                 LET ls == PhysicalLines(Input[i]) IN
                 [ k \in 0 .. Len(ls) |-> RunLines(i, SubSeq(ls, 1, k)) ] ]
Completed(i, n) == Len(CompleteLines(Input[i], n))
Whole(i) == LET st == AfterLines[i][Len(PhysicalLines(Input[i]))] IN IF Final(st) THEN st ELSE AtEof(st)
Cut(i, f) == LET st == AfterLines[i][Completed(i, f)] IN IF Final(st) THEN st ELSE AtFault(st)

Init ==
  /\ x \in DOMAIN Texts
  /\ fault \in IF Failing THEN 0 .. Len(Input[x]) ELSE { -1 }
  /\ got = 0 /\ from = 1 /\ ln = 0 /\ s = Start /\ intr = 0 /\ pieces = << >>

HasLine == \E i \in from .. got : B[i] = LF
Hungry == ~ Final(s) /\ ~ HasLine

Out(p) ==
  Emit => PrintT("CASE " \o ToJson([ x |-> x, fault |-> fault, pieces |-> p ]))

Deliver(k) ==
  /\ Hungry /\ k <= Limit - got
  /\ got' = got + k
  /\ pieces' = Append(pieces, k)
  /\ Out(pieces')
  /\ UNCHANGED << x, fault, from, ln, s, intr >>
DeliverPiece == \E k \in 1 .. MaxPiece : Deliver(k)
DeliverRest == Limit - got > MaxPiece /\ Deliver(Limit - got)

Interrupt ==
  /\ Hungry /\ intr < MaxIntr
  /\ intr' = intr + 1
  /\ pieces' = Append(pieces, 0)
  /\ Out(pieces')
  /\ UNCHANGED << x, fault, got, from, ln, s >>

TakeLine ==
  /\ ~ Final(s) /\ HasLine
  /\ LET e == CHOOSE i \in from .. got : B[i] = LF /\ \A j \in from .. i - 1 : B[j] # LF IN
     /\ s' = Take(s, x, << from, e - 1 >>, ln)
     /\ from' = e + 1
  /\ ln' = ln + 1
  /\ UNCHANGED << x, fault, got, intr, pieces >>

Fails ==
  /\ Hungry /\ fault >= 0 /\ got = Limit
  /\ s' = AtFault(s)
  /\ UNCHANGED << x, fault, got, from, ln, intr, pieces >>

End ==
  /\ Hungry /\ fault < 0 /\ got = Limit
  /\ IF from <= got
     THEN /\ s' = Take(s, x, << from, got >>, ln) /\ from' = got + 1 /\ ln' = ln + 1
     ELSE /\ s' = AtEof(s) /\ UNCHANGED << from, ln >>
  /\ UNCHANGED << x, fault, got, intr, pieces >>

Next == DeliverPiece \/ DeliverRest \/ Interrupt \/ TakeLine \/ Fails \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(DeliverPiece) /\ WF_vars(TakeLine) /\ WF_vars(Fails) /\ WF_vars(End)
View == << x, fault, got, from, ln, s, intr >>

(* The state is a function of the lines consumed. *)
Assembled ==
  ~ Final(s) =>
    /\ s = AfterLines[x][ln]
    /\ \/ ln = Completed(x, from - 1)
       \/ fault < 0 /\ from = Len(B) + 1
(* So is the outcome. *)
Outcome == Final(s) => s = IF fault < 0 THEN Whole(x) ELSE Cut(x, fault)
(* Nothing is loaded from a source that fails; its error is that of the section, or a line's. *)
NoTruncatedData ==
  fault >= 0 /\ Final(s) =>
    /\ s.pc = "Failed"
    /\ s.err.kind = "Io" \/ s.err.line < Completed(x, fault)
    /\ s.err.kind = "Io" => s.err.sec = (IF InHierarchy(AfterLines[x][Completed(x, fault)]) THEN "Joints" ELSE "Motion")
(* The loader does not ask for more than it needs. *)
Frugal == [][ got' # got => Hungry ]_vars
Ends == <> Final(s)
=============================================================================
