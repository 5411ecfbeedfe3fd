------------------------------- MODULE Turns -------------------------------
(***************************************************************************)
(* Trace validation of turns (C18).  A turn is driven from the start of    *)
(* its circle to a configuration on it (order) or the other way round.     *)
(*   rs: an arc, maximum curvature at both ends                            *)
(*   hc: clothoid and arc, curvature 0 at the circle's start               *)
(*   cc: clothoid, arc, clothoid, or two clothoids (elementary), or a      *)
(*       straight line for no deflection; curvature 0 at both ends         *)
(* Regular turns go in one direction, the arc of an irregular turn goes    *)
(* the shorter way around.                                                 *)
(***************************************************************************)
EXTENDS Planner, Json, TLC, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, pc, pose, len, kap
vars == <<i, pc, pose, len, kap>>
C == Cases[i]
Ctr == C.c
Done == pc > Len(Ctr)
Cur == Ctr[pc]
From == IF C.order THEN C.a ELSE C.b
To == IF C.order THEN C.b ELSE C.a
Init == /\ i \in 1..Len(Cases) /\ pc = 1 /\ len = Zero
        /\ pose = <<From[1], From[2], From[3]>> /\ kap = From[4]
Drive == ~Done /\ pose' = Move(pose, Cur) /\ len' = NAdd(len, SegLen(Cur)) /\ kap' = KapEnd(Cur) /\ pc' = pc + 1 /\ i' = i
Next == Drive
Spec == Init /\ [][Next]_vars
\* a deflection below the library's epsilon is driven straight
Tiny == NLe(C.delta, N("1.01e-4"))
Tol == IF Tiny THEN N("1.5e-4") ELSE N("1.2e-6")
TolL == NMul(Tol, NAdd3(One, C.R, len))
GoalReached == Done => NLe(PosDist(pose, To), TolL) /\ NAngNear(pose[3], To[3], Tol)
DeclaredLength == Done => NNear(len, C.len, TolL)
TolC == NMul(N("1e-9"), NAdd(One, C.kap))
CurvatureContinuous == ~Done => NNear(Kap(Cur), kap, TolC)
EndCurvature == Done => NNear(kap, To[4], TolC)
Limits == ~Done => /\ NLe(NMax(NAbs(Kap(Cur)), NAbs(KapEnd(Cur))), NMul(C.kap, N("1.005")))
                   /\ NLe(NAbs(Sig(Cur)), NMul(C.sig, N("1.005")))
\* curvature has the sign of the circle's rotation
Rotation == ~Done => LET r == IF C.left THEN One ELSE N("-1") IN
              /\ NLe(N("-1e-9"), NMul(r, Kap(Cur))) /\ NLe(N("-1e-9"), NMul(r, KapEnd(Cur)))
Dir == IF C.fwd = C.order THEN 1 ELSE -1
IsArc == Sig(Cur) = Zero /\ NLt(Zero, NAbs(Kap(Cur)))
Directed == ~Done => \/ SegDir(Cur) = Dir \/ NEq(Ds(Cur), Zero)
                     \/ ~C.regular /\ IsArc
                     \/ Tiny /\ C.type = "cc"
ArcAngle == NMul(SegLen(Cur), C.kap)
ShortArc == (~Done /\ IsArc) => IF C.regular THEN NLt(ArcAngle, TwoPi) ELSE NLe(ArcAngle, NAdd(Pi, N("1e-9")))
\* an elementary turn is taken only if it is shorter than clothoid, arc, clothoid
Shape == Done => CASE C.type = "rs" -> Len(Ctr) = 1
                   [] C.type = "hc" -> Len(Ctr) = 2
                   [] OTHER -> Len(Ctr) \in {1, 2, 3}
=============================================================================
