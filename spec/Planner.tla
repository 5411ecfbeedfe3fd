------------------------------ MODULE Planner -------------------------------
(***************************************************************************)
(* What each of the thirteen planners promises: which limits apply, where  *)
(* the curvature may jump, what curvature a path has at its ends, and how  *)
(* accurate the answers are.                                               *)
(***************************************************************************)
EXTENDS Geometry
Kinds == {"Dubins", "RS", "CC00D", "CC0pmD", "CCpm0D", "CCpmpmD", "CCD",
          "HC00", "HC0pm", "HCpm0", "HCpmpm", "HC", "CC00RS"}
OneWay(kind)  == kind \in {"Dubins", "CC00D", "CC0pmD", "CCpm0D", "CCpmpmD", "CCD"}
Plain(kind)   == kind \in {"Dubins", "RS"}                     \* no sharpness limit
Continuous(kind) == kind \in {"CC00D", "CC0pmD", "CCpm0D", "CCpmpmD", "CCD", "CC00RS"}
Hybrid(kind)  == kind \in {"HC00", "HC0pm", "HCpm0", "HCpmpm", "HC"}
General(kind) == kind \in {"CCD", "HC"}
\* promised curvature at the start and at the end of a path
StartRule(kind) == CASE kind \in {"CC00D", "CC0pmD", "HC00", "HC0pm", "CC00RS"} -> "zero"
                     [] kind \in {"CCpm0D", "CCpmpmD", "HCpm0", "HCpmpm"} -> "max"
                     [] General(kind) -> "state"
                     [] OTHER -> "free"
EndRule(kind)   == CASE kind \in {"CC00D", "CCpm0D", "HC00", "HCpm0", "CC00RS"} -> "zero"
                     [] kind \in {"CC0pmD", "CCpmpmD", "HC0pm", "HCpmpm"} -> "max"
                     [] General(kind) -> "state"
                     [] OTHER -> "free"
(* accuracy *)
Scale(kind, kap, sig) == IF Plain(kind) THEN NAdd(One, NDiv(One, kap))
                         ELSE NAdd3(One, NDiv(One, kap), NDiv(kap, sig))
Mag(p, q) == NAdd4(NAbs(p[1]), NAbs(p[2]), NAbs(q[1]), NAbs(q[2]))
TolPos(kind, kap, sig, L) ==
  CASE kind = "Dubins" -> NMul(N("1e-5"), Scale(kind, kap, sig))
    [] kind = "RS"     -> NMul(N("1e-8"), Scale(kind, kap, sig))
    [] OTHER -> NMul(NAdd(NMul(N("3e-4"), Scale(kind, kap, sig)), NMul(N("1.5e-4"), L)),
                     IF General(kind) THEN NAdd(One, kap) ELSE One)
TolAng(kind, kap) ==
  CASE kind = "Dubins" -> N("1e-5") [] kind = "RS" -> N("1e-8")
    [] OTHER -> NMul(N("3e-4"), NAdd(One, kap))
TolLen(kind, kap, sig) ==
  CASE Plain(kind) -> NMul(N("1e-9"), Scale(kind, kap, sig))
    [] OTHER -> NMul(N("6e-4"), Scale(kind, kap, sig))
TolKap(kap) == NMul(N("1e-6"), NAdd(One, kap))
Negligible(kap) == NDiv(N("1e-6"), NMax(kap, One))       \* lengths that do not count as motion
(* start and goal coincide: position and heading (modulo 2 pi), and the curvature as far as the planner looks at it *)
SamePose(p, q, eps) == NLe(PosDist(p, q), eps) /\ NAngNear(p[3], q[3], eps)
SameCurvature(kind, p, q, eps) ==
  CASE General(kind) -> NNear(p[4], q[4], eps)
    [] StartRule(kind) # EndRule(kind) -> FALSE
    [] kind = "CCpmpmD" -> NLe(Zero, NMul(p[4], q[4]))        \* the sign is given by the states
    [] OTHER -> TRUE
(* known finding: paths of the families TiSTcT, TcTiST and TcTiSTcT, which   *)
(* have a reversal and an inflection across a straight line.  Their tangent *)
(* circle is placed on the same side for left and right, forward and        *)
(* backward turns, so that the mirror image of such a path is not found.    *)
LopsidedKinds == {"HC00", "HC0pm", "HCpm0", "HCpmpm", "HC", "CC00RS"}
Sgn0(v) == IF NLt(N("1e-9"), v) THEN 1 ELSE IF NLt(v, N("-1e-9")) THEN -1 ELSE 0
Bend(c) == IF Sgn0(Kap(c)) # 0 THEN Sgn0(Kap(c)) ELSE Sgn0(Sig(c))
Lopsided(cs) ==
  LET f[k \in 0..Len(cs)] == IF k = 0 THEN [d |-> 0, bend |-> 0, line |-> FALSE, rev |-> FALSE, infl |-> FALSE]
        ELSE LET s == f[k - 1] c == cs[k] d == SegDir(c) IN
             IF NLt(SegLen(c), N("1e-6")) THEN s
             ELSE LET r == s.d # 0 /\ s.d # d
                      t == IF r THEN [s EXCEPT !.rev = TRUE, !.bend = 0, !.line = FALSE, !.d = d] ELSE [s EXCEPT !.d = d]
                      b == Bend(c)
                  IN IF b = 0 THEN [t EXCEPT !.line = TRUE]
                     ELSE [t EXCEPT !.infl = t.infl \/ (t.line /\ t.bend * b < 0), !.bend = b, !.line = FALSE]
  IN f[Len(cs)].rev /\ f[Len(cs)].infl
=============================================================================
