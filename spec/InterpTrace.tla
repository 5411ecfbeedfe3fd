---------------------------- MODULE InterpTrace ----------------------------
(***************************************************************************)
(* Trace validation of interpolate() (C13).  For every requested fraction  *)
(* the machine drives the segments in order up to the requested arc length *)
(* and compares the state there.  At a border between segments the         *)
(* curvature and direction of either side are right.                       *)
(***************************************************************************)
EXTENDS Planner, Json, TLC, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, q,     \* case, number of the request
          j,        \* segment
          p0, s,    \* pose and arc length at its begin
          ok,       \* a segment that contains the point explained the answer
          slack
vars == <<i, q, j, p0, s, ok, slack>>
C == Cases[i]
Ctr == C.c
Total == PathLen(Ctr)
T(k) == LET t == C.t[k] IN IF NLe(t, Zero) THEN Zero ELSE IF NLt(One, t) THEN One ELSE t
Want == NMul(T(q), Total)
Tol == NMul(N("1e-9"), NAdd(One, Total))
Cur == Ctr[j]
U == NSub(Want, s)                        \* arc length in the current segment
Inside == NLe(NNeg(Tol), U) /\ NLe(U, NAdd(SegLen(Cur), Tol))
Clip == NMax(Zero, NMin(U, SegLen(Cur)))
TolP == NAdd(NMul(N("1e-8"), NAdd(One, Total)), NMul(slack, NAdd(Total, NSq(Total))))
TolA == NAdd3(NMul(N("1e-8"), NAdd(One, Total)), NMul(slack, Total), NMul(Tol, NAbs(Kap(Cur))))
TolKp == NAdd3(N("1e-9"), NMul(Two, slack), NMul3(Two, Tol, NAbs(Sig(Cur))))
Matches(o, p, k, d) == /\ NLe(PosDist(o, p), TolP) /\ NAngNear(o[3], p[3], TolA)
                       /\ NNear(o[4], k, TolKp) /\ NEq(o[5], NI(d))
Neglected(c) == NAdd(IF NLe(NAbs(Sig(c)), N("1.01e-8")) THEN NMul(NAbs(Sig(c)), SegLen(c)) ELSE Zero,
                     IF NLe(NAbs(Kap(c)), N("1.01e-4")) /\ NLe(NAbs(Sig(c)), N("1.01e-8")) THEN NAbs(Kap(c)) ELSE Zero)
SmallJump(k) == IF k = 1 THEN Zero ELSE LET x == NAbs(NSub(Kap(Ctr[k]), KapEnd(Ctr[k - 1]))) IN IF NLe(x, N("1.01e-4")) THEN x ELSE Zero
SlackAll == NSum([k \in 1..Len(Ctr) |-> NAdd(Neglected(Ctr[k]), SmallJump(k))])
Start(c) == <<c.a[1], c.a[2], c.a[3]>>
Init == /\ i \in 1..Len(Cases) /\ q = 1 /\ j = 1 /\ s = Zero /\ ok = FALSE
        /\ p0 = Start(Cases[i]) /\ slack = SlackAll
Drive == /\ q <= Len(C.t) /\ j <= Len(Ctr)
         /\ ok' = (ok \/ (Inside /\ Matches(C.path[q], MoveBy(p0, Cur, Clip), KapAt(Cur, Clip), SegDir(Cur))))
         /\ p0' = Move(p0, Cur) /\ s' = NAdd(s, SegLen(Cur)) /\ j' = j + 1 /\ UNCHANGED <<i, q, slack>>
NextRequest == /\ q <= Len(C.t) /\ j > Len(Ctr)
               /\ q' = q + 1 /\ j' = 1 /\ s' = Zero /\ p0' = Start(C) /\ ok' = FALSE /\ UNCHANGED <<i, slack>>
Next == Drive \/ NextRequest
Spec == Init /\ [][Next]_vars
Explained == (q <= Len(C.t) /\ j > Len(Ctr)) => ok
\* at or before the start: the start pose itself, with the curvature and direction of the first segment
AtStart == (q <= Len(C.t) /\ j = 1 /\ NLe(C.t[q], Zero)) =>
           LET o == C.path[q] IN /\ NLe(PosDist(o, C.a), Zero) /\ NAngNear(o[3], C.a[3], N("1e-12"))
                                 /\ NNear(o[4], Kap(Ctr[1]), N("1e-9")) /\ NEq(o[5], NI(SegDir(Ctr[1])))
C13 == Explained /\ AtStart
=============================================================================
