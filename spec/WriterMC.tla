------------------------------ MODULE WriterMC ------------------------------
(* Writer and loader side by side: every Bvh within the bounds is written line by line, and every line is
   read by the loader as soon as it is written.  Proves within the bounds that the loader accepts what is
   written and that it is the same Bvh.  Emits the shape of every Bvh. *)
EXTENDS BvhWriter, Json

Load == INSTANCE BvhLoader
CONSTANTS MaxJoints, MaxChannels, MaxFrames, Emit

VARIABLES b, w, s, ln
vars == << b, w, s, ln >>

RECURSIVE Anc(_, _)
Anc(ps, i) == IF i < 0 THEN {} ELSE {i} \cup Anc(ps, ps[i + 1])
RECURSIVE ParentsOf(_)
ParentsOf(n) ==
  IF n = 0 THEN { << >> }
  ELSE UNION { { Append(ps, p) : p \in IF ps = << >> THEN { -1 } ELSE Anc(ps, Len(ps) - 1) } : ps \in ParentsOf(n - 1) }

(* All numbers of a Bvh are different; a number is a text. *)
N(a, i) == ToString(a * 1000 + i)
Skel(ps, es, ch) ==
  [ i \in DOMAIN ps |->
      [ name |-> "j" \o ToString(i), par |-> ps[i], off |-> << N(1, 3 * i), N(1, 3 * i + 1), N(1, 3 * i + 2) >>,
        es |-> IF es[i] THEN << N(2, 3 * i), N(2, 3 * i + 1), N(2, 3 * i + 2) >> ELSE << >>,
        ch |-> [ k \in 1 .. ch[i] |-> ChannelNames[1 + ((i + k) % 6)] ] ] ]
Make(ps, es, ch, nf) ==
  LET sk == Skel(ps, es, ch)
      n == NumChannels(sk)
  IN  [ sk |-> sk, nch |-> n, ft |-> "7",
        frames |-> IF n = 0 THEN << >> ELSE [ f \in 1 .. nf |-> [ c \in 1 .. n |-> N(3, f * 100 + c) ] ] ]

Init ==
  /\ \E n \in 0 .. MaxJoints : \E ps \in ParentsOf(n) :
       \E es \in [ 1 .. n -> BOOLEAN ], ch \in [ 1 .. n -> 0 .. MaxChannels ], nf \in 0 .. MaxFrames :
         /\ b = Make(ps, es, ch, nf)
         /\ Emit => PrintT("CASE " \o ToJson([ par |-> ps, es |-> es, ch |-> ch, nf |-> Len(b.frames) ]))
  /\ w = StartWriting /\ s = Load!Start /\ ln = 0

(* The written line as the loader sees it.  (That lexing it gives these tokens is BvhLexer's business.) *)
Text(p) == p.v
IsDigits(x) == x \in { ToString(k) : k \in 0 .. MaxFrames + MaxChannels + 1 }
Token(p) ==
  [ s |-> Text(p),
    f |-> IF p.c \in { "off", "mo" } THEN p.v ELSE "bad",
    u |-> IF p.c = "lit" /\ IsDigits(p.v) THEN p.v ELSE "bad",
    n |-> IF p.c = "lit" /\ IsDigits(p.v) THEN CHOOSE k \in 0 .. MaxFrames + MaxChannels + 1 : ToString(k) = p.v ELSE 0,
    t |-> IF p.c = "ft" THEN p.v ELSE "bad" ]
Colonless(p) == IF p.c = "lit" /\ p.v = "Frames:" THEN Lit("Frames") ELSE IF p.c = "lit" /\ p.v = "Time:" THEN Lit("Time") ELSE p
Seen(line) ==
  [ h |-> [ i \in DOMAIN line.ps |-> Token(Colonless(line.ps[i])) ],
    w |-> [ i \in DOMAIN line.ps |-> Token(line.ps[i]) ],
    nm |-> IF Len(line.ps) >= 2 THEN Text(line.ps[2]) ELSE "" ]

Next ==
  /\ w.pc # "Done"
  /\ LET line == Seen(Written(b, w)) IN
     /\ w' = After(b, w)
     /\ s' = IF Load!Final(s) THEN s ELSE Load!Step(s, Load!LineKind(s, line), line, ln)
     /\ ln' = ln + 1
     /\ UNCHANGED b
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* Only the empty Bvh, which has no root to write, is not read back. *)
Accepted == s.pc = "Failed" => b.sk = << >>
Same ==
  (w.pc = "Done" /\ b.sk # << >>) =>
    LET e == Load!AtEof(s) IN
    /\ e.pc = "Loaded"
    /\ Skeleton(e.joints) = b.sk
    /\ e.nch = b.nch /\ e.ft = b.ft
    /\ Chunks(e.vals, e.nch) = b.frames
(* The blocks open in the text are those open in the loader, and a line is indented by the number of them. *)
InStep ==
  (b.sk # << >> /\ w.pc \notin { "Open", "SiteOpen", "SiteOffset", "SiteClose" }) =>
    [ k \in DOMAIN w.open |-> w.open[k] ] = [ k \in DOMAIN s.stack |-> s.stack[k].joint ]
Nesting ==
  w.pc # "Done" =>
    LET d == Written(b, w).depth IN
    /\ d >= 0
    /\ w.pc \in { "Hierarchy", "Motion", "Frames", "Time", "Row" } => d = 0 /\ w.open = << >>
    /\ w.pc = "Declare" => d = Depth(b.sk, w.ji)
    /\ w.pc \in { "Offset", "Channels" } => d = Depth(b.sk, Innermost(w)) + 1
    /\ w.pc \in { "Open", "Close" } => d = Depth(b.sk, Innermost(w))
Ends == <>(w.pc = "Done")
=============================================================================
