------------------------------- MODULE Belief -------------------------------
(***************************************************************************)
(* The belief of the vehicle: motion Jacobians as derivatives of the exact *)
(* motion, and one step of the Kalman recursion (prediction with motion    *)
(* noise and feedback controller, correction with the measurement).        *)
(* Matrices are sequences of rows of numbers.                              *)
(***************************************************************************)
EXTENDS Planner, Mat
PSD(M, tol) == NLe(NNeg(tol), NMinEig(M))        \* positive semidefinite
(* Jacobians of the motion over length u of segment c from pose p with curvature k (the segment's sharpness):
   with respect to the pose, and to the arc length and the curvature *)
JacX(p, k, c, u) == LET q == MoveBy(p, <<Ds(c), k, Sig(c)>>, u)
                    IN <<<<One, Zero, NSub(p[2], q[2])>>, <<Zero, One, NSub(q[1], p[1])>>, <<Zero, Zero, One>>>>
JacU(p, k, c, u) == LET d == NI(SegDir(c))  a == NMul(d, k)  b == NMul3(d, Half, Sig(c))
                        th == NAdd(p[3], NMul(u, NAdd(a, NMul(b, u))))
                    IN <<<<NCos(th), NNeg(NMomSin(1, p[3], a, b, u))>>,
                         <<NSin(th), NMomCos(1, p[3], a, b, u)>>,
                         <<NAdd(k, NMul(Sig(c), u)), NMul(d, u)>>>>
\* the library neglects the curvature derivative on straight segments (known finding of C19)
IsStraight(k, c) == NLe(NAbs(k), N("1.01e-4")) /\ NLe(NAbs(Sig(c)), N("1.01e-4"))
JacUStraight(J) == <<<<J[1][1], Zero>>, <<J[2][1], Zero>>, J[3]>>
(* one step; z = <<alpha1..alpha4, std x, y, theta, k1, k2, k3>> *)
MotionNoise(z, k, u) == <<<<NAdd(NMul(z[1], NSq(u)), NMul(z[2], NSq(k))), Zero>>,
                          <<Zero, NAdd(NMul(z[3], NSq(u)), NMul(z[4], NSq(k)))>>>>
MeasurementNoise(z) == Diag3(NSq(z[5]), NSq(z[6]), NSq(z[7]))
Gain(z, c) == <<<<z[8], Zero, Zero>>, <<Zero, z[9], NMul(NI(SegDir(c)), z[10])>>>>
ToLocal(th) == <<<<NCos(th), NSin(th), Zero>>, <<NNeg(NSin(th)), NCos(th), Zero>>, <<Zero, Zero, One>>>>
PredSigma(S, Fx, Fu, Q) == MAdd(MMul(MMul(Fx, S), MT(Fx)), MMul(MMul(Fu, Q), MT(Fu)))
PredLambda(La, Fx, Fu, z, c, th) == LET F == MSub(Fx, MMul(MMul(Fu, Gain(z, c)), ToLocal(th))) IN MMul(MMul(F, La), MT(F))
KalmanGain(Sp, z) == MMul(Sp, Inv3(MAdd(Sp, MeasurementNoise(z))))
CorrSigma(Sp, G) == MSub(Sp, MMul(G, Sp))
CorrLambda(Lp, Sp, G) == MAdd(Lp, MMul(G, MT(Sp)))
=============================================================================
