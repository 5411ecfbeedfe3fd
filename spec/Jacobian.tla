------------------------------ MODULE Jacobian ------------------------------
(* Trace validation of EKF::get_motion_jacobi (C19): the recorded matrices are the derivatives of the motion. *)
EXTENDS Belief, Json, TLC, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
C == Cases[i]
Init == i \in 1..Len(Cases)
Next == UNCHANGED i
Spec == Init /\ [][Next]_i
Fx == <<<<C.fx[1], C.fx[2], C.fx[3]>>, <<C.fx[4], C.fx[5], C.fx[6]>>, <<C.fx[7], C.fx[8], C.fx[9]>>>>
Fu == <<<<C.fu[1], C.fu[2]>>, <<C.fu[3], C.fu[4]>>, <<C.fu[5], C.fu[6]>>>>
P == <<C.a[1], C.a[2], C.a[3]>>
k == C.a[4]
\* sharpness and curvature below the epsilon of the library are neglected
Small == NAdd(IF NLe(NAbs(Sig(C.c)), N("1.01e-4")) THEN NAbs(Sig(C.c)) ELSE Zero, IF NLe(NAbs(k), N("1.01e-4")) THEN NAbs(k) ELSE Zero)
Tol == NAdd(NMul(N("1e-6"), NAdd(One, NSq(C.u))), NMul3(N("2"), Small, NAdd3(One, C.u, NSq(NSq(C.u)))))
X == JacX(P, k, C.c, C.u)
U == JacU(P, k, C.c, C.u)
PoseDerivative == MNear(Fx, X, Tol)
\* known finding: on a straight segment the derivative with respect to the curvature is left at zero
KnownStraight == IsStraight(k, C.c)
ControlDerivative == MNear(Fu, U, Tol) \/ (KnownStraight /\ MNear(Fu, JacUStraight(U), Tol))
ReportKnown == (KnownStraight /\ ~MNear(Fu, U, Tol)) => PrintT("KNOWN " \o ToString(i))
=============================================================================
