---------------------------- MODULE LiteralTrace ----------------------------
(* Trace validation for literals: the value of a literal is what loading its text gives.  A trace is a
   loader trace whose observation is the value of the literal, or that it has none; eq, ne say whether it
   compared equal to what from_str made of the same text ("" if there is nothing to compare). *)
EXTENDS LoaderTrace
LiteralDiff ==
  (Diff \ { "kind", "line", "detail" })
  \cup When(T.obs.r = "ok" /\ s.pc = "Loaded" /\ (T.eq # "yes" \/ T.ne # "no"), "unequal")
LiteralVerdict ==
  Final(s) =>
    LET d == LiteralDiff \cap Focus IN
    PrintT("VERDICT " \o ToJson([ id |-> T.id, d |-> d, pc |-> s.pc, kind |-> s.err.kind,
      exp |-> IF d = {} THEN << >> ELSE << Skeleton(s.joints), s.nch, s.ft, s.err, Len(s.vals) >> ]))
=============================================================================
