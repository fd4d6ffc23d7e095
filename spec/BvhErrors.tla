----------------------------- MODULE BvhErrors -----------------------------
(* Load errors: what each kind carries and what caused it.  An error is a chain: the load error, the error
   of the section, and its cause if it has one. *)
EXTENDS BvhCore

JointsKinds == { "Io", "MissingRoot", "MissingJointName", "UnexpectedKeyword", "UnexpectedChannelsSection",
                 "ParseNumChannelsError", "ParseChannelError", "UnexpectedOffsetSection", "ParseOffsetError", "MissingOffsetAxis" }
MotionKinds == { "Io", "MissingMotionSection", "MissingNumFrames", "MissingFrameTime", "ParseMotionSection", "MotionCountMismatch" }
KindsOf(sec) == IF sec = "Joints" THEN JointsKinds ELSE MotionKinds
CarriesLine(kind) == kind \notin { "Io", "MissingRoot", "MotionCountMismatch" }
CarriesAxis(kind) == kind \in { "ParseOffsetError", "MissingOffsetAxis" }
CarriesCounts(kind) == kind = "MotionCountMismatch"
CauseOf(kind) == IF kind = "Io" THEN << "io" >> ELSE IF kind = "ParseChannelError" THEN << "channel" >> ELSE << >>
SectionName(sec) == IF sec = "Joints" THEN "hierarchy" ELSE "motion"

(* What an error state of the loader specification must have filled in, and nothing else. *)
WellDescribed(e) ==
  /\ e.sec \in { "Joints", "Motion" } /\ e.kind \in KindsOf(e.sec)
  /\ CarriesLine(e.kind) <=> e.line >= 0
  /\ CarriesAxis(e.kind) <=> e.axis \in Range(Axes)
  /\ CarriesCounts(e.kind) <=> (e.act # "" /\ e.exp # "" /\ e.fr # "" /\ e.cl # "")
  /\ (e.kind = "ParseChannelError") <=> e.bad # ""
  /\ (e.kind = "ParseMotionSection") <=> e.idx >= 0
=============================================================================
