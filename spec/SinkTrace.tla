----------------------------- MODULE SinkTrace -----------------------------
(* Trace validation for delivery.  A trace: text, what is to be delivered; got, what the writer accepted;
   log, the calls: c "w" or "f", n bytes offered, a taken, r "ok", "intr" or "err"; fail the error that the
   writer reports (kind, msg); res the result: ok, kind, msg. *)
EXTENDS BvhSink, Json, IOUtils

CONSTANT Focus
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, k, s, d
vars == << t, k, s, d >>
T == Traces[t]
Init == t \in DOMAIN Traces /\ k = 1 /\ s = StartDelivery /\ d = {}

Call == T.log[k]
Can == k <= Len(T.log)
Do(new, kinds) == s' = new /\ d' = d \cup kinds /\ k' = k + 1 /\ UNCHANGED t
IsWrite == Can /\ Call.c = "w"
(* Bytes arrive in order, none twice: what was taken is where it belongs in the text. *)
InPlace(n) ==
  /\ s.taken + n <= Len(T.text)
  /\ SubSeq(T.got, s.taken + 1, s.taken + n) = SubSeq(T.text, s.taken + 1, s.taken + n)
Taking == IsWrite /\ Call.r = "ok" /\ Call.a > 0 /\ Do(Accept(s, Call.a), IF InPlace(Call.a) THEN {} ELSE {"prefix"})
Nothing == IsWrite /\ Call.r = "ok" /\ Call.n = 0 /\ Do(s, {})
Refusing == IsWrite /\ Call.r = "ok" /\ Call.n > 0 /\ Call.a = 0 /\ Do(Refuse(s), {})
Interrupting == IsWrite /\ Call.r = "intr" /\ Do(Interrupted(s), {})
Failing == IsWrite /\ Call.r = "err" /\ Do(WriteError(s), {})
Flushing == Can /\ Call.c = "f" /\ Call.r = "ok" /\ Do(Flush(s), {})
FlushFailing == Can /\ Call.c = "f" /\ Call.r = "err" /\ Do(FlushError(s), {})
(* The call to the library returns. *)
Return ==
  /\ k = Len(T.log) + 1 /\ k' = k + 1 /\ UNCHANGED << t, s >>
  /\ d' = d \cup (IF T.res.ok /\ ~ Delivered(s, Len(T.text)) THEN {"ok"} ELSE {})
            \cup (IF ~ T.res.ok /\ ~ MayFail(s) THEN {"failed"} ELSE {})
            \cup (IF ~ T.res.ok /\ s.failed = "error" /\ (T.res.kind # T.fail.kind \/ T.res.msg # T.fail.msg) THEN {"error"} ELSE {})
            \cup (IF Len(T.got) # s.taken THEN {"prefix"} ELSE {})
Next == Taking \/ Nothing \/ Refusing \/ Interrupting \/ Failing \/ Flushing \/ FlushFailing \/ Return
Spec == Init /\ [][Next]_vars
View == << t, k >>
Verdict ==
  k = Len(T.log) + 2 =>
    PrintT("VERDICT " \o ToJson([ id |-> T.id, d |-> d \cap Focus, calls |-> Len(T.log), failed |-> s.failed, taken |-> s.taken ]))
=============================================================================
