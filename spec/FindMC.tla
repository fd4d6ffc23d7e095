------------------------------- MODULE FindMC -------------------------------
(* Searching by name in all joints or the children of one, for every tree of up to MaxJoints joints with
   names from a small set.  Emits the history leading to each transition. *)
EXTENDS BvhCore, FiniteSets, TLC, Json
CONSTANTS MaxJoints, Emit
VARIABLES joints, owner, lo, hist
vars == << joints, owner, lo, hist >>

Names == { "x", "y" }
(* Depth-first numbered trees: the parent of a new joint is the previous joint or one of its ancestors. *)
RECURSIVE Anc(_, _)
Anc(js, i) == IF i < 0 THEN {} ELSE {i} \cup Anc(js, js[i + 1].par)
Grow(js) == { Append(js, [ name |-> x, par |-> p ]) : x \in Names, p \in IF js = << >> THEN { -1 } ELSE Anc(js, Len(js) - 1) }
RECURSIVE TreesOf(_)
TreesOf(n) == IF n = 0 THEN { << >> } ELSE UNION { Grow(js) : js \in TreesOf(n - 1) }

Init ==
  /\ \E n \in 1 .. MaxJoints : joints \in TreesOf(n)
  /\ owner \in -1 .. Len(joints) - 1
  /\ lo = 0 /\ hist = << >>
List == IF owner < 0 THEN [ i \in DOMAIN joints |-> i - 1 ] ELSE Children(joints, owner)
Commands == { << "find", x >> : x \in Names \cup { "z" } } \cup { << "next", "" >>, << "nth", "0" >>, << "nth", "1" >> }
Hits(x) ==
  { p \in lo .. Len(List) - 1 :
      CASE x[1] = "find" -> joints[List[p + 1] + 1].name = x[2]
        [] x[1] = "next" -> TRUE
        [] x[1] = "nth" -> p >= lo + (IF x[2] = "1" THEN 1 ELSE 0) }
Next ==
  \E x \in Commands :
    /\ lo' = IF Hits(x) = {} THEN Len(List) ELSE 1 + (CHOOSE p \in Hits(x) : \A q \in Hits(x) : p <= q)
    /\ hist' = Append(hist, x)
    /\ UNCHANGED << joints, owner >>
    /\ Emit => PrintT("CASE " \o ToJson([ par |-> [ i \in DOMAIN joints |-> joints[i].par ],
                                          names |-> [ i \in DOMAIN joints |-> joints[i].name ], of |-> owner, h |-> hist' ]))
Spec == Init /\ [][Next]_vars
Constraint == Len(hist) <= MaxJoints + 1
View == << joints, owner, lo, IF hist = << >> THEN << >> ELSE hist[Len(hist)] >>

(* The children of all joints together are all joints but the root, each once; a joint comes after its
   parent and its descendants are next to it. *)
Tree ==
  /\ joints # << >> => DepthFirst(joints)
  /\ \A i \in DOMAIN joints : \A k \in DOMAIN Children(joints, i - 1) : joints[Children(joints, i - 1)[k] + 1].par = i - 1
  /\ \A j \in 2 .. Len(joints) : Cardinality({ i \in DOMAIN joints : \E k \in DOMAIN Children(joints, i - 1) : Children(joints, i - 1)[k] = j - 1 }) = 1
=============================================================================
