------------------------------ MODULE OptionsMC ------------------------------
(* All sequences of at most MaxSteps settings: the last setting of a field is the one that holds, no
   setting touches another field, and settings of different fields may be swapped.  Emits the sequences. *)
EXTENDS BvhOptions, Json
CONSTANTS Values, MaxSteps, Emit
VARIABLES o, h
vars == << o, h >>

Settings == { << f, v >> : f \in Fields, v \in UNION { Values[g] : g \in Fields } }
Possible == { x \in Settings : x[2] \in Values[x[1]] }
Init == o = Defaults /\ h = << >>
Next == Len(h) < MaxSteps /\ \E x \in Possible : h' = Append(h, x) /\ o' = Set(o, x[1], x[2])
Spec == Init /\ [][Next]_vars

Times(f) == { i \in DOMAIN h : h[i][1] = f }
LastHolds == \A f \in Fields : o[f] = IF Times(f) = {} THEN Defaults[f] ELSE Stored(f, h[Max(Times(f))][2])
Swapped == \A x \in Possible, y \in Possible : x[1] # y[1] => Set(Set(o, x[1], x[2]), y[1], y[2]) = Set(Set(o, y[1], y[2]), x[1], x[2])
OneField == [][ Cardinality({ f \in Fields : o'[f] # o[f] }) <= 1 ]_vars
Emitted == Emit => PrintT("CASE " \o ToJson([ h |-> h, o |-> o ]))
=============================================================================
