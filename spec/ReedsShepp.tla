----------------------------- MODULE ReedsShepp -----------------------------
(***************************************************************************)
(* The Reeds-Shepp words in the frame of the start pose, unit curvature.   *)
(* Every word begins with a left turn t and ends with a turn v; what lies  *)
(* between fixes the vector from the centre of the first circle to that of *)
(* the last one as A e(t) + B f(t), with f(t) the heading after the first  *)
(* turn and e(t) to the right of it.  The remaining words are the mirror   *)
(* images, the words driven backwards and the reversed words.              *)
(* A word is a sequence of <<steering, signed length>>.                    *)
(***************************************************************************)
EXTENDS Geometry
Frames(g) == LET m(x, y, t) == <<x, y, t>> IN
  << m(g[1], g[2], g[3]), m(NNeg(g[1]), g[2], NNeg(g[3])), m(g[1], NNeg(g[2]), NNeg(g[3])), m(NNeg(g[1]), NNeg(g[2]), g[3]) >>
Reversed(g) == Local(<<g[1], g[2], g[3]>>, <<Zero, Zero, Zero>>)
AllFrames(g) == Frames(g) \o Frames(Reversed(g))
Center(g, r) == <<NSub(g[1], NMul(NI(r), NSin(g[3]))), NAdd(g[2], NMul(NI(r), NCos(g[3])))>>
Wrap(a) == NAngDiff(a, Zero)
\* distance and direction from the first centre <<0, 1>> to the last one (rotation r)
VecTo(g, r) == LET c == Center(g, r) IN <<c[1], NSub(c[2], One)>>
Dist(g, r) == NHypot(VecTo(g, r)[1], VecTo(g, r)[2])
Dir(g, r) == NAtan2(VecTo(g, r)[2], VecTo(g, r)[1])
First(g, r, A, B) == Wrap(NSub(NAdd(Dir(g, r), HalfPi), NAtan2(B, A)))
Root(a) == NSqrt(NMax(Zero, a))
Clip1(a) == NMax(N("-1"), NMin(One, a))
Pm == {1, -1}
L == 1
R == -1
LastL(h, g) == Wrap(NSub(g[3], h))       \* last left / right turn from heading h
LastR(h, g) == Wrap(NSub(h, g[3]))
Q90 == NNeg(HalfPi)
\* t, u, v of the base words; s chooses between the solutions
LSL(g, s) == LET u == NMul(NI(s), Dist(g, L))  t == First(g, L, Zero, u) IN << <<L, t>>, <<0, u>>, <<L, LastL(t, g)>> >>
LSR(g, s) == LET u == NMul(NI(s), Root(NSub(NSq(Dist(g, R)), N("4"))))  t == First(g, R, Two, u) IN << <<L, t>>, <<0, u>>, <<R, LastR(t, g)>> >>
LRL(g, s) == LET u == NMul(NI(2 * s), NAsin(Clip1(NDiv(Dist(g, L), N("4")))))
                 t == First(g, L, NSub(Two, NMul(Two, NCos(u))), NMul(Two, NSin(u)))
             IN << <<L, t>>, <<R, u>>, <<L, LastL(NSub(t, u), g)>> >>
LRLRsym(g, s, z) == LET k == Clip1(NDiv(NAdd(Two, NMul(NI(z), Dist(g, R))), N("4")))
                        u == NMul(NI(s), NAcos(k))
                        w == NSub(NMul(Two, NCos(u)), One)
                        t == Wrap(NAdd(First(g, R, w, Zero), u))
                    IN << <<L, t>>, <<R, u>>, <<L, NNeg(u)>>, <<R, LastR(NSub(t, NMul(Two, u)), g)>> >>
LRLRpar(g, s) == LET u == NMul(NI(s), NAcos(Clip1(NDiv(NSub(N("20"), NSq(Dist(g, R))), N("16")))))
                     t == First(g, R, NSub(Two, NCos(u)), NSin(u))
                 IN << <<L, t>>, <<R, u>>, <<L, u>>, <<R, LastR(t, g)>> >>
LRSL(g, s) == LET r == NMul(NI(s), Root(NSub(NSq(Dist(g, L)), N("4"))))  t == First(g, L, r, N("-2"))
              IN << <<L, t>>, <<R, Q90>>, <<0, NSub(Two, r)>>, <<L, LastL(NAdd(t, HalfPi), g)>> >>
LRSR(g, s) == LET r == NMul(NI(s), Dist(g, R))  t == First(g, R, r, Zero)
              IN << <<L, t>>, <<R, Q90>>, <<0, NSub(Two, r)>>, <<R, LastR(NAdd(t, HalfPi), g)>> >>
LRSLR(g, s) == LET r == NMul(NI(s), Root(NSub(NSq(Dist(g, R)), N("4"))))  t == First(g, R, r, N("-2"))
               IN << <<L, t>>, <<R, Q90>>, <<0, NSub(N("4"), r)>>, <<L, Q90>>, <<R, LastR(t, g)>> >>
Words(g) == {LSL(g, s) : s \in Pm} \cup {LSR(g, s) : s \in Pm} \cup {LRL(g, s) : s \in Pm} \cup {LRLRsym(g, s, z) : s \in Pm, z \in Pm}
            \cup {LRLRpar(g, s) : s \in Pm} \cup {LRSL(g, s) : s \in Pm} \cup {LRSR(g, s) : s \in Pm} \cup {LRSLR(g, s) : s \in Pm}
WordLen(w) == NSum([j \in 1..Len(w) |-> NAbs(w[j][2])])
WordControls(w) == [j \in 1..Len(w) |-> Seg(w[j][2], NI(w[j][1]), Zero)]
\* a word counts only if driving it really leads to the goal
Leads(w, g) == LET p == DriveAll(<<Zero, Zero, Zero>>, WordControls(w))
               IN NLe(PosDist(p, g), N("1e-10")) /\ NAngNear(p[3], g[3], N("1e-10"))
NoShorter(g, d) == \A j \in 1..8 : LET h == AllFrames(g)[j] IN \A w \in Words(h) : NLe(d, WordLen(w)) \/ ~Leads(w, h)
Reached(g, d) == \E j \in 1..8 : LET h == AllFrames(g)[j] IN \E w \in Words(h) : NLe(WordLen(w), d) /\ Leads(w, h)
=============================================================================
