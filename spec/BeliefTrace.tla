---------------------------- MODULE BeliefTrace ----------------------------
(***************************************************************************)
(* Trace validation of paths with covariances (C14).  The sampler of       *)
(* SampleTrace.tla explains which segment and step every state comes from; *)
(* on every state the covariances must follow from those of the state      *)
(* before by one step of the Kalman recursion.                             *)
(***************************************************************************)
EXTENDS SampleTrace, Belief
Z == C.noise
Same(A, B) == MNear(A, B, NMul(N("1e-14"), MaxAbs(B)))
\* what one step of length u along the current segment makes of the belief recorded with state n
U1 == NSub(At(m + 1), At(m))
PoseOf(o) == <<o[1], o[2], o[3]>>
\* relative accuracy of one step; the gain is as well conditioned as the innovation covariance
Tol(M) == LET s == NAdd(MaxAbs(M), N("1e-6"))
              r == NMin(NSq(Z[5]), NMin(NSq(Z[6]), NSq(Z[7])))
          IN NMul(s, NAdd(N("1e-8"), NMul(N("1e-13"), NDiv(s, r))))
\* sharpness and curvature below the epsilon of the library do not enter its Jacobians
Small == NAdd(IF NLe(NAbs(Sig(Cur)), N("1.01e-4")) THEN NAbs(Sig(Cur)) ELSE Zero,
              IF NLe(NAbs(Obs(n)[4]), N("1.01e-4")) THEN NAbs(Obs(n)[4]) ELSE Zero)
StepBelief(Fu) ==
  LET o == Obs(n)
      Fx == JacX(PoseOf(o), o[4], Cur, U1)
      Sp == PredSigma(C.Sg[n], Fx, Fu, MotionNoise(Z, o[4], U1))
      Lp == PredLambda(C.La[n], Fx, Fu, Z, Cur, o[3])
      G == KalmanGain(Sp, Z)
      S == CorrSigma(Sp, G)
      L == CorrLambda(Lp, Sp, G)
      t == NAdd(Tol(MAdd(Sp, Lp)), NMul3(NAdd(NMul(N("3"), slack), NMul(N("20"), Small)), NAdd(One, U1), NAdd(One, MaxAbs(MAdd(Sp, Lp)))))
  IN /\ MNear(C.Sg[n + 1], S, t) /\ MNear(C.La[n + 1], L, t)
     /\ PSD(MSub(Sp, C.Sg[n + 1]), t)                 \* a measurement never adds uncertainty
FollowsStep == LET o == Obs(n)  J == JacU(PoseOf(o), o[4], Cur, U1)
               IN StepBelief(J) \/ (IsStraight(o[4], Cur) /\ StepBelief(JacUStraight(J)))
BInit == Init
BFirst == First /\ Same(C.Sg[1], C.Sg0) /\ Same(C.La[1], C.La0) /\ Same(C.Co[1], C.Co0)
BRepeat == Repeat /\ Same(C.Sg[n + 1], C.Sg[n]) /\ Same(C.La[n + 1], C.La[n]) /\ Same(C.Co[n + 1], C.Co[n])
BStep == Step /\ FollowsStep
BNextSegment == EndSegment
BNext == BFirst \/ BRepeat \/ BStep \/ BNextSegment
BSpec == BInit /\ [][BNext]_vars
BStuck == Done \/ ENABLED BNext
SamePath == /\ Len(C.path) = Len(C.base) /\ Len(C.Sg) = Len(C.path)
            /\ (n > 0) => \A k \in 1..5 : NEq(C.path[n][k], C.base[n][k]) \/ NNear(C.path[n][k], C.base[n][k], N("1e-12"))
Covariances == (n > 0) => LET t == NMul(N("1e-9"), NAdd(MaxAbs(C.Co[n]), N("1e-6"))) IN
                 /\ (n > 1) => MNear(C.Co[n], MAdd(C.Sg[n], C.La[n]), t)
                 /\ Symmetric(C.Sg[n], t) /\ Symmetric(C.La[n], t) /\ Symmetric(C.Co[n], t)
                 /\ PSD(C.Sg[n], t) /\ PSD(C.La[n], t) /\ PSD(C.Co[n], t)
=============================================================================
