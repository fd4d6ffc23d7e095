---------------------------- MODULE RegisterMC ----------------------------
(* The values of a frame are registers: each holds whatever was stored there last, bit for bit, whatever
   was in it before, and storing returns what was there.  Numbers that compare equal (the zeros) or compare
   unequal to themselves are values like any other.  Emits every store over every value. *)
EXTENDS BvhFrames, TLC, Json
CONSTANTS Width, Values, Ways, Emit
VARIABLES f, last
vars == << f, last >>

None == [ at |-> -1, way |-> "none", old |-> "", new |-> "" ]
Init == f = [ j \in 1 .. Width |-> CHOOSE v \in Values : TRUE ] /\ last = None
Put(at, v, way) ==
  /\ f' = Store(f, Span(f, "one", at, 0), v)
  /\ last' = [ at |-> at, way |-> way, old |-> Select(f, Span(f, "one", at, 0))[1], new |-> v ]
  /\ Emit => PrintT("CASE " \o ToJson(last'))
Next == \E at \in 0 .. Width - 1, v \in Values, way \in Ways : Put(at, v, way)
Spec == Init /\ [][Next]_vars
View == f

Holds == last.at >= 0 => f[last.at + 1] = last.new
ReturnsOld == [][ last'.old = f[last'.at + 1] ]_vars
OthersKeep == [][ \A p \in 1 .. Width : p # last'.at + 1 => f'[p] = f[p] ]_vars
=============================================================================
