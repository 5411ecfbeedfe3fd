------------------------------ MODULE Algebra -------------------------------
(***************************************************************************)
(* C20: operations on controls and the tests of coincidence.  A reversed   *)
(* control drives back; a difference of two controls drives the first and  *)
(* then the second backwards; two states are equal iff they cannot be told *)
(* apart at the library's resolution, headings modulo a full turn; a       *)
(* configuration is aligned with another iff it lies straight ahead with   *)
(* the same heading, and is on a circle iff the turn of the circle passes  *)
(* through it with its curvature vanishing there.                          *)
(***************************************************************************)
EXTENDS Geometry, Json, TLC, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, pc, pose
C == Cases[i]
P3(s) == <<s[1], s[2], s[3]>>
\* what is driven: there and back; or the two ways to the same place
Route == CASE C.op = "reverse" -> <<C.c, C.r>>
           [] C.op = "subtract" -> <<C.c, <<NNeg(Ds(C.e)), KapEnd(C.e), NNeg(Sig(C.e))>>>>
           [] OTHER -> <<>>
Init == i \in 1..Len(Cases) /\ pc = 1 /\ pose = IF Cases[i].op \in {"reverse", "subtract", "equal", "circle"} THEN P3(Cases[i].a) ELSE <<>>
Drive == pc <= Len(Route) /\ pose' = Move(pose, Route[pc]) /\ pc' = pc + 1 /\ i' = i
Next == Drive
Spec == Init /\ [][Next]_<<i, pc, pose>>
Arrived == pc > Len(Route)
Near3(p, q, tol) == NLe(PosDist(p, q), tol) /\ NAngNear(p[3], q[3], tol)
PathTol == NMul(N("1e-11"), NAdd(N("100"), NAdd(NAbs(pose[1]), NAbs(pose[2]))))
ReverseOK == /\ Arrived => Near3(pose, P3(C.a), PathTol)
             /\ NNear(Kap(C.r), KapEnd(C.c), N("1e-11")) /\ NNear(KapEnd(C.r), Kap(C.c), N("1e-11"))
             /\ NNear(SegLen(C.r), SegLen(C.c), Zero)
SubtractOK == Arrived => /\ Near3(pose, Move(P3(C.a), C.r), NMul(N("10"), PathTol))
                         /\ NNear(Kap(C.r), Kap(C.c), Zero)
                         /\ ~NEq(SegLen(C.r), Zero) => NNear(KapEnd(C.r), Kap(C.e), N("1e-10"))
(* coincidence *)
Res == N("1e-4")
Differ(a, b) == NMax(NMax(PosDist(a, b), NAbs(NAngDiff(a[3], b[3]))), NAbs(NSub(a[4], b[4])))
Decided(v) == NLt(N("1e-6"), NAbs(NSub(v, Res)))
Ahead(a, b) == LET l == Local(a, b) IN NAbs(NAtan2(l[2], l[1]))
AlignedIs(a, b, r) == (NLt(N("1e-6"), PosDist(a, b)) /\ Decided(NAbs(NAngDiff(a[3], b[3]))) /\ Decided(Ahead(a, b)))
                        => (r <=> NLt(NAbs(NAngDiff(a[3], b[3])), Res) /\ NLt(Ahead(a, b), Res))
EqualOK == /\ Decided(Differ(C.a, C.b)) => \A k \in {1, 2, 4, 5} : C.o[k] <=> NLt(Differ(C.a, C.b), Res)
           /\ C.o[1] = C.o[4] /\ C.o[2] = C.o[5]                                        \* symmetric
           /\ AlignedIs(C.a, C.b, C.o[3]) /\ AlignedIs(C.b, C.a, C.o[6])
(* the circle of a turn: where a clothoid of maximum sharpness from the start ends, its centre of curvature *)
D == IF C.fwd THEN One ELSE N("-1")
H == IF C.left THEN One ELSE N("-1")
Clothoid == <<NMul(D, NDiv(C.kap, C.sig)), Zero, NMul(H, C.sig)>>
ArcBegin == IF C.type = 0 THEN P3(C.a) ELSE Move(P3(C.a), Clothoid)
Centre == <<NSub(ArcBegin[1], NMul(H, NDiv(NSin(ArcBegin[3]), C.kap))), NAdd(ArcBegin[2], NMul(H, NDiv(NCos(ArcBegin[3]), C.kap)))>>
Radius == PosDist(Centre, C.a)
\* angle between the heading and the tangent of the circle at the start
Mu == NAtan2(NMul(D, Local(C.a, <<Centre[1], Centre[2], Zero>>)[1]), NMul(H, Local(C.a, <<Centre[1], Centre[2], Zero>>)[2]))
MuAt(q) == NAtan2(NMul(D, Local(q, <<Centre[1], Centre[2], Zero>>)[1]), NMul(H, Local(q, <<Centre[1], Centre[2], Zero>>)[2]))
\* a turn leaves the circle with the tangent inclined the other way
OffRadius == NAbs(NSub(PosDist(Centre, C.b), Radius))
OffAngle == NAbs(NAngDiff(MuAt(C.b), NNeg(Mu)))
CircleTol == NMul(N("1e-9"), NAdd(N("100"), Radius))
CircleOK == /\ NNear(C.o[1], Centre[1], CircleTol) /\ NNear(C.o[2], Centre[2], CircleTol)
            /\ NNear(C.o[3], Radius, CircleTol) /\ NNear(C.o[4], Mu, N("1e-9"))
            /\ C.type # 0 => NNear(C.o[5], NDiv(NSq(C.kap), NMul(Two, C.sig)), NMul(N("1e-12"), NAdd(One, NDiv(NSq(C.kap), C.sig))))
            /\ (Decided(OffRadius) /\ Decided(OffAngle)) => (C.on <=> NLt(OffRadius, Res) /\ NLt(OffAngle, Res))
ArgminOK == C.i \in 0..(Len(C.v) - 1) /\ \A k \in 1..Len(C.v) : NLe(C.v[C.i + 1], C.v[k])
C20 == CASE C.op = "reverse" -> ReverseOK
         [] C.op = "subtract" -> SubtractOK
         [] C.op = "equal" -> EqualOK
         [] C.op = "circle" -> CircleOK
         [] C.op = "argmin" -> ArgminOK
         [] OTHER -> FALSE
=============================================================================
