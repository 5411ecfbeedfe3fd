-------------------------------- MODULE Path --------------------------------
(***************************************************************************)
(* The answer of a planner as a behaviour: the vehicle starts in the start *)
(* state and executes the returned controls one after the other.  The      *)
(* initial states are the recorded queries; the invariants are the         *)
(* properties C01 to C06, each evaluated in every state of every drive.    *)
(***************************************************************************)
EXTENDS Planner, Json, TLC, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i,        \* the query
          pc,       \* next segment
          pose,     \* <<x, y, theta>>
          len,      \* arc length driven so far
          kap,      \* curvature at the end of the last segment that moved (<<>>: none yet)
          dir       \* its direction
vars == <<i, pc, pose, len, kap, dir>>
C == Cases[i]
Ctr == C.c
Done == pc > Len(Ctr)
Cur == Ctr[pc]
Moves(c) == NLt(Negligible(C.kap), SegLen(c))

Init == /\ i \in 1..Len(Cases) /\ pc = 1
        /\ pose = <<Cases[i].a[1], Cases[i].a[2], Cases[i].a[3]>>
        /\ len = Zero /\ kap = <<>> /\ dir = 0
Drive == /\ ~Done
         /\ pc' = pc + 1 /\ i' = i
         /\ pose' = Move(pose, Cur)
         /\ len' = NAdd(len, SegLen(Cur))
         /\ IF Moves(Cur) THEN kap' = KapEnd(Cur) /\ dir' = SegDir(Cur)
                          ELSE kap' = kap /\ dir' = dir
Next == Drive
Spec == Init /\ [][Next]_vars

(* C01 *)
Finite == ~Done => SegFinite(Cur)
NonEmpty == Len(Ctr) > 0
GoalReached == Done => /\ NLe(PosDist(pose, C.b), TolPos(C.kind, C.kap, C.sig, len))
                       /\ NAngNear(pose[3], C.b[3], TolAng(C.kind, C.kap))
C01 == NonEmpty /\ Finite /\ GoalReached
(* C02 *)
LengthIsDistance == Done => NNear(len, C.D, NAdd(TolLen(C.kind, C.kap, C.sig), NMul(N("1e-11"), len)))
DistanceValid == NFinite(C.D) /\ NLe(Zero, C.D)
\* coincident states (up to rounding of the heading) are no distance apart, and only states that the
\* library cannot distinguish (1e-4 of the vehicle scale) are
ZeroIffSame == /\ (SamePose(C.a, C.b, N("1e-11")) /\ SameCurvature(C.kind, C.a, C.b, N("1e-11")))
                    => NLe(C.D, NMul(N("1e-5"), NAdd(One, NDiv(One, C.kap))))
               /\ NLe(C.D, N("1e-7"))
                    => /\ SamePose(C.a, C.b, NMul(N("2e-4"), NAdd(One, NDiv(One, C.kap))))
                       /\ C.kind = "CCD" => NNear(C.a[4], C.b[4], NMul(N("2e-4"), NAdd(One, C.sig)))
C02 == DistanceValid /\ LengthIsDistance /\ ZeroIffSame
(* C03.  Paired clothoids of an elementary turn have an individual sharpness, known to 1% only. *)
OnElementary == ~Plain(C.kind) /\ ~NEq(NAbs(Sig(Cur)), C.sig) /\ ~NEq(Sig(Cur), Zero)
Slack == IF OnElementary THEN N("1.005") ELSE N("1.000000001")
KapSlack == NMul(C.kap, Slack)
CurvatureLimit == (~Done /\ Moves(Cur)) => /\ NLe(NAbs(Kap(Cur)), NAdd(KapSlack, N("1e-9")))
                             /\ NLe(NAbs(KapEnd(Cur)), NAdd(KapSlack, N("1e-9")))
SharpnessLimit == (~Done /\ Moves(Cur)) => IF Plain(C.kind) THEN NEq(Sig(Cur), Zero)
                           ELSE NLe(NAbs(Sig(Cur)), NMul(C.sig, Slack))
C03 == CurvatureLimit /\ SharpnessLimit
(* C04 *)
Joint == ~Done /\ Moves(Cur) /\ kap # <<>>
Continuity == Joint => \/ Plain(C.kind)
                       \/ NNear(Kap(Cur), kap, TolKap(C.kap))
                       \/ Hybrid(C.kind)
\* hybrid curvature: a jump only at a cusp; segments without motion count, they show the cusp to whoever samples the path
\* (a given curvature within 1e-4 of zero or the maximum is taken for that: the control that would lead there is empty)
TolJoint == IF General(C.kind) /\ (~Moves(Cur) \/ ~Moves(Ctr[pc - 1])) THEN N("1.01e-4") ELSE TolKap(C.kap)
EveryJoint == (~Done /\ pc > 1 /\ Hybrid(C.kind)) => \/ NNear(Kap(Cur), KapEnd(Ctr[pc - 1]), TolJoint)
                                                   \/ SegDir(Cur) # SegDir(Ctr[pc - 1])
C04 == Continuity /\ EveryJoint
(* C05 *)
TolBoundary == NAdd(NMul(N("1e-4"), NAdd(C.sig, C.kap)), N("1.1e-4"))
Boundary(rule, k, given) ==
  CASE rule = "zero" -> NLe(NAbs(k), TolKap(C.kap))
    [] rule = "max"  -> /\ NNear(NAbs(k), C.kap, TolKap(C.kap))
                        /\ NLe(Zero, NMul(k, given))      \* on the side of the given state
    [] rule = "state" -> NNear(k, given, TolBoundary)
    [] OTHER -> TRUE
Coincident == SamePose(C.a, C.b, N("2e-4"))
StartCurvature == (pc = 1 /\ ~Done /\ ~Coincident) => Boundary(StartRule(C.kind), Kap(Cur), C.a[4])
EndCurvature == (Done /\ Len(Ctr) > 0 /\ ~Coincident) => Boundary(EndRule(C.kind), KapEnd(Ctr[Len(Ctr)]), C.b[4])
C05 == StartCurvature /\ EndCurvature
(* C06 *)
Direction == (~Done /\ OneWay(C.kind) /\ Moves(Cur)) => SegDir(Cur) = IF C.fwd THEN 1 ELSE -1
\* the states of the sampled path (directions recorded in pd) run through the directions of the segments in
\* their order, and the state in the middle of a segment (md) has its direction; segments without motion exempt
RECURSIVE Runs(_)
Runs(q) == IF Len(q) <= 1 THEN q ELSE IF q[1] = q[2] THEN Runs(Tail(q)) ELSE <<q[1]>> \o Runs(Tail(q))
AllMove == \A j \in 1..Len(Ctr) : Moves(Ctr[j])
StateDirections == (pc = 1 /\ C.pd # <<>> /\ AllMove) =>
  /\ Runs([j \in 1..Len(C.pd) |-> IF NEq(C.pd[j], One) THEN 1 ELSE IF NEq(C.pd[j], N("-1")) THEN -1 ELSE 0])
       = Runs([j \in 1..Len(Ctr) |-> SegDir(Ctr[j])])
  /\ \A j \in 1..Len(Ctr) : NEq(C.md[j], NI(SegDir(Ctr[j])))
C06 == Direction /\ StateDirections
=============================================================================
