------------------------------ MODULE LiteralMC ------------------------------
(* Every literal within bounds, expanded and also loaded as a text; the two must agree at every point.
   Each complete literal is printed. *)
EXTENDS LoaderMC, BvhLiteral

CONSTANTS LitChannels,     \* numbers of channels that a CHANNELS statement may have
          MaxLit           \* bound on the number of joints
VARIABLES b,       \* the builder
          stage,   \* what each open block may still contain
          result   \* frames, once the motion has been given
lvars == << s, text, n, b, stage, result >>

LitInit == Init /\ b = EmptyBuilder /\ stage = << >> /\ result = << >>

Then(lines, nums) ==
  /\ s' = RunAll(s, lines, Len(text)) /\ text' = text \o lines /\ n' = n + nums
SetStage(x) == [ stage EXCEPT ![Len(stage)] = x ]
At(x) == stage # << >> /\ stage[Len(stage)] \in x

OpenRoot ==
  /\ text = << >>
  /\ Then(<< << "HIERARCHY" >>, << "ROOT", "j0" >>, << "{" >> >>, 0)
  /\ b' = Enter(PushJoint(b, "j0")) /\ stage' = << "fresh" >> /\ UNCHANGED result
OffsetAndChannels(k) ==
  /\ At({ "fresh" })
  /\ LET o == << Num(n), Num(n + 1), Num(n + 2) >>
         chs == [ i \in 1 .. k |-> ChannelNames[((n + 5 * i) % 6) + 1] ]
     IN  /\ Then(<< << "OFFSET" >> \o o, << "CHANNELS", ToString(k) >> \o chs >>, 3)
         /\ b' = PushChannels(SetOffset(b, o), chs)
  /\ stage' = SetStage("own") /\ UNCHANGED result
OpenJoint ==
  /\ At({ "fresh", "own", "kids" }) /\ Len(b.joints) < MaxLit
  /\ Then(<< << "JOINT", Name >>, << "{" >> >>, 0)
  /\ b' = Enter(PushJoint(b, Name))
  /\ stage' = Append(SetStage("kids"), "fresh") /\ UNCHANGED result
EndSite ==
  /\ At({ "fresh", "own" })
  /\ LET o == << Num(n), Num(n + 1), Num(n + 2) >> IN
     /\ Then(<< << "End", "Site" >>, << "{" >>, << "OFFSET" >> \o o, << "}" >> >>, 3)
     /\ b' = SetSite(b, o)
  /\ stage' = SetStage("done") /\ UNCHANGED result
CloseJoint ==
  /\ At({ "fresh", "own", "kids", "done" })
  /\ Then(<< << "}" >> >>, 0)
  /\ b' = Leave(b)
  /\ stage' = IF Len(stage) = 1 THEN << "motion" >> ELSE Front(stage)
  /\ UNCHANGED result
Motion(declared, v) ==
  /\ stage = << "motion" >> /\ (v = 0 => declared = 0)
  /\ LET vals == [ i \in 1 .. v |-> Num(n + i) ]
         lines == << << "MOTION" >>, << "Frames:", ToString(declared) >>, << "Frame", "Time:", "7" >> >>
                  \o (IF v = 0 THEN << >> ELSE << vals >>)
     IN  /\ Then(lines, v)
         /\ result' = << LiteralFrames(b, declared, vals) >>
         /\ Record(text', << >>, s')
  /\ stage' = << "end" >> /\ UNCHANGED b

LitNext ==
  \/ OpenRoot \/ (\E k \in LitChannels : OffsetAndChannels(k)) \/ OpenJoint \/ EndSite \/ CloseJoint
  \/ \E k \in 0 .. 3, v \in 0 .. MaxValues : Motion(k, v)
LitSpec == LitInit /\ [][LitNext]_lvars
(* RunLine counts CHANNELS beyond 3 as no count; the model uses at most 3. *)
LitView == << stage, [ i \in DOMAIN b.joints |-> << b.joints[i].par, b.joints[i].off # ZeroOffset, b.joints[i].es # << >>, Len(b.joints[i].ch) >> ],
              IF result = << >> THEN << >> ELSE << Len(s.vals), s.nf.n >> >>

---------------------------------------------------------------------------
(* What the builder has is what the loader has read. *)
Agree ==
  /\ s.pc # "Failed"
  /\ Skeleton(s.joints) = Skeleton(b.joints)
  /\ \A i \in DOMAIN b.joints : b.joints[i].ch # << >> => b.joints[i].first = s.joints[i].first
  /\ b.nch = s.nch
  /\ stage # << >> /\ stage[1] \notin { "motion", "end" } => b.depth = Len(stage)
(* The literal evaluates exactly if its text loads, and then to the same frames. *)
AgreeAtEnd ==
  result # << >> =>
    /\ b.depth = 0
    /\ (AtEof(s).pc = "Loaded") = result[1].ok
    /\ result[1].ok => result[1].frames = Chunks(s.vals, s.nch)
CoherentLiteral == DepthFirst(b.joints) /\ NumChannels(b.joints) = b.nch
=============================================================================
