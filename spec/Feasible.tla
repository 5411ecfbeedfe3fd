------------------------------ MODULE Feasible ------------------------------
(***************************************************************************)
(* A control sequence is a path of a planner: it leads from start to goal, *)
(* respects the limits, keeps the curvature continuous where the planner   *)
(* promises it, has the promised curvature at its ends and reverses only   *)
(* if the planner may.  Used to check paths proposed as witnesses.         *)
(* q: [kind, kap, sig, fwd, a, b], cs: the controls.                       *)
(***************************************************************************)
EXTENDS Planner
MovesF(q, c) == NLt(Negligible(q.kap), SegLen(c))
Moving(q, cs) == LET f[n \in 0..Len(cs)] == IF n = 0 THEN <<>> ELSE IF MovesF(q, cs[n]) THEN Append(f[n - 1], cs[n]) ELSE f[n - 1] IN f[Len(cs)]
LeadsToGoal(q, cs) == LET p == DriveAll(<<q.a[1], q.a[2], q.a[3]>>, cs) IN
  /\ NLe(PosDist(p, q.b), TolPos(q.kind, q.kap, q.sig, PathLen(cs))) /\ NAngNear(p[3], q.b[3], TolAng(q.kind, q.kap))
WithinLimits(q, cs) == \A n \in 1..Len(cs) : MovesF(q, cs[n]) =>
  /\ NLe(NAbs(Kap(cs[n])), NMul(q.kap, N("1.005"))) /\ NLe(NAbs(KapEnd(cs[n])), NMul(q.kap, N("1.005")))
  /\ IF Plain(q.kind) THEN NEq(Sig(cs[n]), Zero) ELSE NLe(NAbs(Sig(cs[n])), NMul(q.sig, N("1.005")))
Steady(q, cs) == LET m == Moving(q, cs) IN \A n \in 1..(Len(m) - 1) :
  Plain(q.kind) \/ NNear(KapEnd(m[n]), Kap(m[n + 1]), TolKap(q.kap)) \/ (Hybrid(q.kind) /\ SegDir(m[n]) # SegDir(m[n + 1]))
BoundaryOf(q, rule, k, given) ==
  CASE rule = "zero" -> NLe(NAbs(k), TolKap(q.kap))
    [] rule = "max" -> NNear(NAbs(k), q.kap, TolKap(q.kap)) /\ NLe(Zero, NMul(k, given))
    [] rule = "state" -> NNear(k, given, NAdd(NMul(N("1e-4"), NAdd(q.sig, q.kap)), N("1.1e-4")))
    [] OTHER -> TRUE
Ends(q, cs) == Len(cs) > 0 /\ BoundaryOf(q, StartRule(q.kind), Kap(cs[1]), q.a[4]) /\ BoundaryOf(q, EndRule(q.kind), KapEnd(cs[Len(cs)]), q.b[4])
OneDirection(q, cs) == OneWay(q.kind) => \A n \in 1..Len(cs) : MovesF(q, cs[n]) => SegDir(cs[n]) = IF q.fwd THEN 1 ELSE -1
IsPath(q, cs) == LeadsToGoal(q, cs) /\ WithinLimits(q, cs) /\ Steady(q, cs) /\ Ends(q, cs) /\ OneDirection(q, cs)
=============================================================================
