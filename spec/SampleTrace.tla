---------------------------- MODULE SampleTrace ----------------------------
(***************************************************************************)
(* Trace validation of sampled paths (C12): the states that integrate() or *)
(* get_path() returned must be a behaviour of the sampler, driven with the *)
(* exact motion of Geometry.tla.  The machine consumes one recorded state  *)
(* per action; a case is accepted if all its states can be consumed.       *)
(***************************************************************************)
EXTENDS Planner, Json, TLC, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i,      \* the case
          n,      \* recorded states consumed
          j,      \* segment (0: before the first state)
          m,      \* steps done in the segment
          p0,     \* pose at the begin of the segment
          rep,    \* repeated state of this segment consumed
          kap,    \* curvature of the last state
          len,    \* arc length at the begin of the segment
          slack   \* curvature that the library neglects (below its epsilon)
vars == <<i, n, j, m, p0, rep, kap, len, slack>>
C == Cases[i]
Ctr == C.c
Obs(q) == C.path[q]
NObs == Len(C.path)
Cur == Ctr[j]
SegAt(q) == Ctr[q]
Len_ == SegLen(Cur)
Eps == N("1e-4")
Init == /\ i \in 1..Len(Cases) /\ n = 0 /\ j = 0 /\ m = 0 /\ rep = FALSE /\ len = Zero /\ slack = Zero
        /\ p0 = <<Cases[i].a[1], Cases[i].a[2], Cases[i].a[3]>> /\ kap = Zero
\* number of steps of a segment; both are right if its length is a multiple of the step up to rounding
Few == NTrunc(NCeil(NSub(NDiv(Len_, C.disc), N("1e-9"))))
Many == IF NEq(Len_, Zero) THEN 0 ELSE NTrunc(NCeil(NAdd(NDiv(Len_, C.disc), N("1e-9"))))
At(k) == NMin(NMul(NI(k), C.disc), Len_)
Driven == NAdd(len, IF j > 0 THEN Len_ ELSE Zero)
TolP == NAdd(NMul(N("1e-8"), NAdd(One, Driven)), NMul(slack, NAdd(Driven, NSq(Driven))))
TolA == NAdd(NMul(N("1e-8"), NAdd(One, Driven)), NMul(slack, Driven))
TolK == NAdd(N("1e-9"), NMul(N("2"), slack))
\* recorded state q is pose p with curvature k and direction d
Is(q, p, k, d) == /\ NLe(PosDist(Obs(q), p), TolP) /\ NAngNear(Obs(q)[3], p[3], TolA)
                  /\ NNear(Obs(q)[4], k, TolK) /\ NEq(Obs(q)[5], NI(d))
More == n < NObs
Done == n = NObs /\ j = Len(Ctr) + 1
InSeg == j \in 1..Len(Ctr)
Jumps == NLt(Eps, NAbs(NSub(Kap(Cur), kap)))
\* for planners without a sharpness limit every segment begins with a state of its own
MayRepeat == ~rep /\ m = 0 /\ (Plain(C.kind) \/ NLt(NMul(N("0.99"), Eps), NAbs(NSub(Kap(Cur), kap))))
MustRepeat == ~rep /\ m = 0 /\ NLt(NMul(N("1.01"), Eps), NAbs(NSub(Kap(Cur), kap)))
Neglected(c) == NAdd(IF NLe(NAbs(Sig(c)), N("1.01e-8")) THEN NMul(NAbs(Sig(c)), SegLen(c)) ELSE Zero,
                     IF NLe(NAbs(Kap(c)), N("1.01e-4")) /\ NLe(NAbs(Sig(c)), N("1.01e-8")) THEN NAbs(Kap(c)) ELSE Zero)
First == /\ j = 0 /\ More
         /\ PosDist(Obs(1), p0) = Zero /\ NAngNear(Obs(1)[3], p0[3], N("1e-12"))
         /\ NNear(Obs(1)[4], Kap(SegAt(1)), N("1e-9")) /\ NEq(Obs(1)[5], NI(SegDir(SegAt(1))))
         /\ n' = 1 /\ j' = 1 /\ kap' = Kap(SegAt(1)) /\ rep' = TRUE /\ slack' = Neglected(SegAt(1)) /\ UNCHANGED <<i, m, p0, len>>
RepeatOK == InSeg /\ More /\ MayRepeat /\ Is(n + 1, p0, Kap(Cur), SegDir(Cur))
Repeat == /\ RepeatOK
          /\ n' = n + 1 /\ rep' = TRUE /\ kap' = Kap(Cur) /\ UNCHANGED <<i, j, m, p0, len, slack>>
StepOK == InSeg /\ More /\ ~MustRepeat /\ m < Many /\ Is(n + 1, MoveBy(p0, Cur, At(m + 1)), KapAt(Cur, At(m + 1)), SegDir(Cur))
Step == /\ StepOK
        /\ n' = n + 1 /\ m' = m + 1 /\ rep' = TRUE /\ kap' = Obs(n + 1)[4] /\ UNCHANGED <<i, j, p0, len, slack>>
EndSegment ==  /\ InSeg /\ ~MustRepeat /\ m >= Few
               /\ j' = j + 1 /\ m' = 0 /\ p0' = Move(p0, Cur) /\ rep' = FALSE
               /\ len' = NAdd(len, Len_)
               /\ kap' = (IF Few = 0 THEN kap ELSE KapEnd(Cur))
               /\ slack' = (IF j < Len(Ctr)
                            THEN LET jump == NAbs(NSub(Kap(SegAt(j + 1)), kap'))
                                 IN NAdd3(slack, Neglected(SegAt(j + 1)), IF NLe(jump, NMul(N("1.01"), Eps)) THEN jump ELSE Zero)
                            ELSE slack)
               /\ UNCHANGED <<i, n>>
NextSegment == EndSegment
Next == First \/ Repeat \/ Step \/ NextSegment
Spec == Init /\ [][Next]_vars
\* Where a length is a multiple of the step up to rounding two actions may explain a state: a case is
\* accepted if some behaviour consumes all of it (check.py compares the printed cases with the recorded ones).
Accept == Done => PrintT("ACC " \o ToString(i))
Stuck == Done \/ ENABLED Next          \* only to show where a rejected case ends
\* neighbouring states are no further apart than a step
Gap == (n > 1) => NLe(PosDist(Obs(n), Obs(n - 1)), NMul(C.disc, N("1.000001")))
=============================================================================
