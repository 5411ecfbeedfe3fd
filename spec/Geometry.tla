------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* The motion of the kinematic car.  A segment <<ds, k, s>> is driven over *)
(* the signed arc length ds, its curvature starts with k and changes by s  *)
(* per (unsigned) arc length.                                              *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences
Seg(ds, k, s) == <<ds, k, s>>
Ds(c) == c[1]
Kap(c) == c[2]
Sig(c) == c[3]
SegLen(c) == NAbs(Ds(c))
SegDir(c) == NSgn(Ds(c))
KapAt(c, u) == NAdd(Kap(c), NMul(Sig(c), u))     \* curvature after arc length u
KapEnd(c) == KapAt(c, SegLen(c))
\* pose <<x, y, th>> after the first u metres of segment c driven from pose p
MoveBy(p, c, u) ==
  LET d == NI(SegDir(c))
      a == NMul(d, Kap(c))
      b == NMul3(d, Half, Sig(c))
  IN <<NAdd(p[1], NMul(d, NIntCos(p[3], a, b, u))),
       NAdd(p[2], NMul(d, NIntSin(p[3], a, b, u))),
       NAdd(p[3], NMul(u, NAdd(a, NMul(b, u))))>>
Move(p, c) == MoveBy(p, c, SegLen(c))
RECURSIVE DriveFrom(_, _, _)
DriveFrom(p, cs, i) == IF i > Len(cs) THEN p ELSE DriveFrom(Move(p, cs[i]), cs, i + 1)
DriveAll(p, cs) == DriveFrom(p, cs, 1)
PathLen(cs) == NSum([i \in 1..Len(cs) |-> SegLen(cs[i])])
PosDist(p, q) == NHypot(NSub(p[1], q[1]), NSub(p[2], q[2]))
SegFinite(c) == NFinite(Ds(c)) /\ NFinite(Kap(c)) /\ NFinite(Sig(c))
\* rigid motions and reflections of poses
Rot(p, t) == <<NSub(NMul(NCos(t), p[1]), NMul(NSin(t), p[2])),
               NAdd(NMul(NSin(t), p[1]), NMul(NCos(t), p[2])), NAdd(p[3], t)>>
Shift(p, dx, dy) == <<NAdd(p[1], dx), NAdd(p[2], dy), p[3]>>
MirrorY(p) == <<p[1], NNeg(p[2]), NNeg(p[3])>>
\* goal q expressed in the frame of pose p
Local(p, q) == LET dx == NSub(q[1], p[1])  dy == NSub(q[2], p[2])  c == NCos(p[3])  s == NSin(p[3])
               IN <<NAdd(NMul(c, dx), NMul(s, dy)), NSub(NMul(c, dy), NMul(s, dx)), NSub(q[3], p[3])>>
=============================================================================
