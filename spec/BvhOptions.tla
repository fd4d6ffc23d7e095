------------------------------ MODULE BvhOptions ------------------------------
(* The options of the writer, as a register of five fields which are set one at a time.

   Values are names: an indentation "tabs", "none" or a number of blanks; a line terminator "unix",
   "windows", or "native", which is one of them; a precision "any" or a number of digits. *)
EXTENDS BvhCore

Fields == { "indent", "term", "off", "ft", "mo" }
Native == "unix"
(* A name of a value as it is stored. *)
Stored(f, v) ==
  CASE f = "indent" /\ v = "default" -> "tabs"
    [] f = "indent" /\ v = "0" -> "none"
    [] f = "term" /\ v \in { "native", "default" } -> Native
    [] OTHER -> v
Defaults == [ indent |-> "tabs", term |-> Native, off |-> "any", ft |-> "any", mo |-> "any" ]
Set(o, f, v) == [ o EXCEPT ![f] = Stored(f, v) ]

TerminatorText(v) == IF Stored("term", v) = "windows" THEN "\r\n" ELSE "\n"
Escaped(v) == IF Stored("term", v) = "windows" THEN "\\r\\n" ELSE "\\n"
=============================================================================
