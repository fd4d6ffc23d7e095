------------------------------ MODULE BvhSink ------------------------------
(* Delivering a text to a writer that takes its bytes as it pleases.

   The state: how many bytes the writer has accepted, whether it was flushed after the last of them, and
   how it failed.  Every call to the writer is one step:
     Accept(k)     a write of which k > 0 bytes were taken
     Interrupted   a write that was interrupted; nothing was taken, and nothing has failed
     Refuse        a write (of something) of which nothing was taken: the writer is full
     WriteError(e), FlushError(e), Flush *)
EXTENDS BvhCore

StartDelivery == [ taken |-> 0, flushed |-> FALSE, failed |-> "" ]
Accept(s, k) == [ s EXCEPT !.taken = @ + k, !.flushed = FALSE ]
Interrupted(s) == s
Refuse(s) == [ s EXCEPT !.failed = IF @ = "" THEN "zero" ELSE @ ]
WriteError(s) == [ s EXCEPT !.failed = IF @ = "" THEN "error" ELSE @ ]
Flush(s) == [ s EXCEPT !.flushed = TRUE ]
FlushError(s) == [ s EXCEPT !.failed = IF @ = "" THEN "error" ELSE @, !.flushed = FALSE ]

(* Writing may only report success in these states, and must then, *)
Delivered(s, size) == s.failed = "" /\ s.taken = size /\ s.flushed
(* and may only report failure in these. *)
MayFail(s) == s.failed # ""
=============================================================================
