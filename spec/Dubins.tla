------------------------------- MODULE Dubins -------------------------------
(***************************************************************************)
(* The six Dubins words in the frame of the start pose, unit curvature.    *)
(* A word turns around the circle of the start (rotation r), then drives   *)
(* straight or around a middle circle, then around the circle of the goal. *)
(* Lengths jump where a turn shrinks to nothing or a word begins to exist; *)
(* within Eps of such a place a word has two admissible lengths.           *)
(***************************************************************************)
EXTENDS Geometry
Eps == N("1e-6")
CStart(r) == <<Zero, NI(r)>>
CGoal(g, r) == <<NSub(g[1], NMul(NI(r), NSin(g[3]))), NAdd(g[2], NMul(NI(r), NCos(g[3])))>>
Vec(p, q) == <<NSub(q[1], p[1]), NSub(q[2], p[2])>>
Norm(v) == NHypot(v[1], v[2])
Arg(v) == NAtan2(v[2], v[1])
\* a turn angle, at its smallest (up = FALSE) and at its largest admissible value
Turn(a, up) == LET m == NMod2Pi(a) IN
  IF up THEN (IF NLt(m, Eps) THEN NAdd(m, TwoPi) ELSE m)
        ELSE (IF NLt(NSub(TwoPi, Eps), m) THEN Zero ELSE m)
Inf == N("1e300")
Same(g, r, up) ==          \* turn, straight, turn in the same rotation
  LET v == Vec(CStart(r), CGoal(g, r))  p == Norm(v)  th == Arg(v)  whole == NMul(NI(r), g[3])
  IN IF NLt(p, Eps) THEN (IF up THEN NAdd3(NMod2Pi(whole), TwoPi, p) ELSE Turn(whole, FALSE))
     ELSE NAdd3(Turn(NMul(NI(r), th), up), p, Turn(NMul(NI(r), NSub(g[3], th)), up))
Cross(g, r, up) ==         \* turn, straight, turn in the opposite rotation
  LET v == Vec(CStart(r), CGoal(g, -r))  d == Norm(v)
      p == NSqrt(NMax(Zero, NSub(NSq(d), N("4"))))
      th == NAdd(Arg(v), NMul(NI(r), NAtan2(Two, p)))
  IN IF NLt(d, IF up THEN NAdd(Two, Eps) ELSE NSub(Two, Eps)) THEN Inf
     ELSE NAdd3(Turn(NMul(NI(r), th), up), p, Turn(NMul(NI(r), NSub(th, g[3])), up))
Three(g, r, up) ==         \* three turns, the middle one longer than half a circle
  LET v == Vec(CStart(r), CGoal(g, r))  d == Norm(v)
      p == NSub(TwoPi, NMul(Two, NAsin(NMin(One, NDiv(d, N("4"))))))
      t == NAdd(NMul(NI(r), Arg(v)), NMul(Half, p))
      q == NSub(NAdd(NMul(NI(r), g[3]), p), t)
  IN IF NLt(IF up THEN NSub(N("4"), Eps) ELSE NAdd(N("4"), Eps), d) \/ (up /\ NLt(d, Eps)) THEN Inf
     ELSE NAdd3(Turn(t, up), p, Turn(q, up))
Best(g, up) == NMin(NMin(NMin(Same(g, 1, up), Same(g, -1, up)), NMin(Cross(g, 1, up), Cross(g, -1, up))),
                    NMin(Three(g, 1, up), Three(g, -1, up)))
Shortest(g) == Best(g, FALSE)        \* lower bound of the distance
Attained(g) == Best(g, TRUE)         \* upper bound; both agree except next to a jump
=============================================================================
