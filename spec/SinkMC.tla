------------------------------ MODULE SinkMC ------------------------------
(* The delivery protocol against an adversary.  A text of Size bytes is offered in pieces of any length
   (the protocol is not told how); the adversary decides every answer.  The protocol retries after
   interruptions and short writes, stops at the first failure, flushes at the end.
   Emits the answers of every run. *)
EXTENDS BvhSink, Json
CONSTANTS Size, MaxIntr, Emit
VARIABLES s, pc, got, offered, intr, h
vars == << s, pc, got, offered, intr, h >>

Init == s = StartDelivery /\ pc = "Write" /\ got = << >> /\ offered = 0 /\ intr = 0 /\ h = << >>

(* The bytes of the text are their positions. *)
Text == [ i \in 1 .. Size |-> i ]
Offer ==
  /\ pc = "Write" /\ s.taken < Size
  /\ \E n \in 1 .. Size - s.taken : offered' = n
  /\ pc' = "Answer" /\ UNCHANGED << s, got, intr, h >>
Answer(x) == h' = Append(h, x)
Taking ==
  /\ pc = "Answer"
  /\ \E k \in 1 .. offered :
       /\ s' = Accept(s, k) /\ got' = got \o SubSeq(Text, s.taken + 1, s.taken + k)
       /\ Answer(ToString(k))
       (* the rest of the piece is offered again before anything else *)
       /\ offered' = offered - k /\ pc' = IF k = offered THEN "Write" ELSE "Answer"
  /\ UNCHANGED intr
Interrupting ==
  /\ pc = "Answer" /\ intr < MaxIntr /\ intr' = intr + 1
  /\ s' = Interrupted(s) /\ Answer("intr") /\ UNCHANGED << pc, got, offered >>
Refusing == pc = "Answer" /\ s' = Refuse(s) /\ Answer("zero") /\ pc' = "Err" /\ UNCHANGED << got, offered, intr >>
Failing == pc = "Answer" /\ s' = WriteError(s) /\ Answer("err") /\ pc' = "Err" /\ UNCHANGED << got, offered, intr >>
Flushing == pc = "Write" /\ s.taken = Size /\ s' = Flush(s) /\ Answer("flush") /\ pc' = "Ok" /\ UNCHANGED << got, offered, intr >>
FlushFailing == pc = "Write" /\ s.taken = Size /\ s' = FlushError(s) /\ Answer("flusherr") /\ pc' = "Err" /\ UNCHANGED << got, offered, intr >>
Next == Offer \/ Taking \/ Interrupting \/ Refusing \/ Failing \/ Flushing \/ FlushFailing
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Prefix == IsPrefix(got, Text) /\ Len(got) = s.taken
OkIsDelivered == pc = "Ok" => Delivered(s, Size) /\ got = Text
ErrIsFailure == pc = "Err" => MayFail(s)
DeliveredIsOk == Delivered(s, Size) => pc = "Ok"
Ends == <>(pc \in { "Ok", "Err" })
Emitted == (Emit /\ pc \in { "Ok", "Err" }) => PrintT("CASE " \o ToJson(h))
=============================================================================
