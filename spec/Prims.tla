------------------------------- MODULE Prims -------------------------------
(* Trace validation of the geometric primitives (C17) against their definitions. *)
EXTENDS Geometry, Json, TLC, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
C == Cases[i]
Init == i \in 1..Len(Cases)
Next == UNCHANGED i
Spec == Init /\ [][Next]_i
In == C.in
Out == C.out
Abs1(x) == NAdd(One, NAbs(x))
\* the congruent angle in the range
Wrapped(lo, hi) == /\ NAngNear(Out[1], In[1], NMul(N("1e-14"), Abs1(In[1])))
                   \* (as far as the spacing of the numbers around a large angle lets it)
                   /\ LET slack == NMul(N("1e-15"), NAbs(In[1])) IN NLe(NSub(lo, slack), Out[1]) /\ NLe(Out[1], NAdd(hi, slack))
HPi == NDiv(Pi, Two)
FresnelOK == LET s == NAbs(In[1])  g == NI(NSgn(In[1])) IN
  /\ NNear(Out[1], NMul(g, NIntSin(Zero, Zero, HPi, s)), N("1e-11"))
  /\ NNear(Out[2], NMul(g, NIntCos(Zero, Zero, HPi, s)), N("1e-11"))
Pose == <<In[1], In[2], In[3]>>
At2(p, tol) == NNear(Out[1], p[1], tol) /\ NNear(Out[2], p[2], tol)
ClothoidOK == LET c == <<NMul(In[6], In[7]), In[4], In[5]>>
                  q == MoveBy(Pose, c, In[7])
                  \* the closed form evaluates Fresnel integrals at phase k^2 / sigma
                  tol == NMul3(N("1e-10"), NAdd(One, In[7]), NAdd(One, NMul(N("1e-4"), NDiv(NSq(In[4]), NAbs(In[5])))))
              IN /\ At2(q, tol) /\ NAngNear(Out[3], q[3], N("1e-12")) /\ NNear(Out[4], KapAt(c, In[7]), N("1e-12"))
ArcOK == LET c == <<NMul(In[5], In[6]), In[4], Zero>>  q == MoveBy(Pose, c, In[6])
         IN At2(q, NMul(N("1e-12"), NAdd(N("100"), NDiv(One, NAbs(In[4]))))) /\ NAngNear(Out[3], q[3], N("1e-12"))
LineOK == At2(MoveBy(Pose, <<NMul(In[4], In[5]), Zero, Zero>>, In[5]), N("1e-12"))
FramesOK == LET p == <<In[4], In[5]>>  l == Local(Pose, <<In[4], In[5], Zero>>)
                g == <<NAdd(In[1], NSub(NMul(NCos(In[3]), p[1]), NMul(NSin(In[3]), p[2]))),
                       NAdd(In[2], NAdd(NMul(NSin(In[3]), p[1]), NMul(NCos(In[3]), p[2])))>>
            IN /\ At2(g, N("1e-11"))
               /\ NNear(Out[3], p[1], N("1e-11")) /\ NNear(Out[4], p[2], N("1e-11"))      \* and back
               /\ NNear(Out[5], l[1], N("1e-11")) /\ NNear(Out[6], l[2], N("1e-11"))
DistanceOK == NNear(Out[1], NHypot(NSub(In[1], In[3]), NSub(In[2], In[4])), N("1e-11"))
PolarOK == /\ NLe(Zero, Out[1]) /\ NNear(NMul(Out[1], NCos(Out[2])), In[1], N("1e-11"))
           /\ NNear(NMul(Out[1], NSin(Out[2])), In[2], N("1e-11"))
           /\ NLe(NAbs(Out[2]), Pi)
Exact == CASE C.op = "twopify" -> Wrapped(Zero, TwoPi)
           [] C.op = "pify" -> Wrapped(NNeg(Pi), Pi)
           [] C.op = "fresnel" -> FresnelOK
           [] C.op = "clothoid" -> ClothoidOK
           [] C.op = "arc" -> ArcOK
           [] C.op = "line" -> LineOK
           [] C.op = "frames" -> FramesOK
           [] C.op = "distance" -> DistanceOK
           [] C.op = "polar" -> PolarOK
           [] OTHER -> FALSE
=============================================================================
