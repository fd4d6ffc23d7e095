------------------------------ MODULE AccessMC ------------------------------
(* Every selection of values of a frame of up to MaxWidth values: what is selected, what storing changes.
   Emits each command. *)
EXTENDS BvhFrames, FiniteSets, TLC, Json
CONSTANTS MaxWidth, Emit
VARIABLES w, cmd
vars == << w, cmd >>

Ranges == { "r", "ri", "rf", "rt", "rti", "full" }
Single == { "get", "idx", "set", "setm", "setidx" }
Ranged == { "getr", "idxr", "setrm", "setridx" }
Commands(n) ==
  { [ c |-> x, r |-> "one", a |-> y, b |-> 0 ] : x \in Single, y \in 0 .. n + 2 }
  \cup { [ c |-> x, r |-> z, a |-> y1, b |-> y2 ] : x \in Ranged, z \in Ranges, y1, y2 \in 0 .. n + 1 }
Init == w \in 0 .. MaxWidth /\ cmd = [ c |-> "none", r |-> "full", a |-> 0, b |-> 0 ]
Next ==
  /\ cmd.c = "none" /\ UNCHANGED w
  /\ \E x \in Commands(w) : cmd' = x /\ (Emit => PrintT("CASE " \o ToJson([ w |-> w, cmd |-> x ])))
Spec == Init /\ [][Next]_vars

F == [ j \in 1 .. w |-> 10 * j ]
Sp == Span(F, cmd.r, cmd.a, cmd.b)
(* Positions selected, said without Span. *)
Picked == { p \in 0 .. w - 1 :
              CASE cmd.r = "one" -> p = cmd.a
                [] cmd.r = "r" -> p >= cmd.a /\ p < cmd.b
                [] cmd.r = "ri" -> p >= cmd.a /\ p <= cmd.b
                [] cmd.r = "rf" -> p >= cmd.a
                [] cmd.r = "rt" -> p < cmd.b
                [] cmd.r = "rti" -> p <= cmd.b
                [] cmd.r = "full" -> TRUE }
InRange ==
  CASE cmd.r = "one" -> cmd.a < w
    [] cmd.r = "r" -> cmd.a <= cmd.b /\ cmd.b <= w
    [] cmd.r = "ri" -> cmd.a <= cmd.b + 1 /\ cmd.b < w
    [] cmd.r = "rf" -> cmd.a <= w
    [] cmd.r = "rt" -> cmd.b <= w
    [] cmd.r = "rti" -> cmd.b < w
    [] cmd.r = "full" -> TRUE
Selects ==
  /\ Valid(F, Sp) = InRange
  /\ Valid(F, Sp) =>
       /\ Len(Select(F, Sp)) = Cardinality(Picked)
       /\ \A p \in 0 .. w - 1 :
            /\ p \in Picked <=> \E j \in DOMAIN Select(F, Sp) : Select(F, Sp)[j] = F[p + 1]
            /\ Store(F, Sp, 7)[p + 1] = (IF p \in Picked THEN 7 ELSE F[p + 1])
=============================================================================
