------------------------------ MODULE Relations -----------------------------
(***************************************************************************)
(* C10, C11: relations between the distances of related queries.  A        *)
(* recorded case is a list of pairs (or triples) of queries: the situation *)
(* itself and, where its distances did not fit, variants of it (moved,     *)
(* with other lengths of arcs and straight lines, goal displaced a little).*)
(* The property is violated if no variant fits: a single one may sit where *)
(* two path families meet and rounding decides.  The lower bounds (euclid,  *)
(* rs, dubins) come without variants: they hold for every single pair.     *)
(* The specification checks both that the queries really are related and   *)
(* that the distances are.                                                 *)
(***************************************************************************)
EXTENDS Planner, Json, TLC, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, n, all
vars == <<i, n, all>>
C == Cases[i].l
(* ---- the symmetries ---------------------------------------------------- *)
Eps == N("1e-9")
SameState(p, q) == LET m == NMul(N("1e-11"), NAdd(One, Mag(p, q))) IN
  NNear(p[1], q[1], m) /\ NNear(p[2], q[2], m) /\ NAngNear(p[3], q[3], Eps) /\ NNear(p[4], q[4], Eps)
SameParams(p, q) == p.kind = q.kind /\ p.fwd = q.fwd /\ NEq(p.kap, q.kap) /\ NEq(p.sig, q.sig)
Turned(par, s) == <<NAdd(par[2], NSub(NMul(NCos(par[1]), s[1]), NMul(NSin(par[1]), s[2]))),
                    NAdd(par[3], NAdd(NMul(NSin(par[1]), s[1]), NMul(NCos(par[1]), s[2]))), NAdd(s[3], par[1]), s[4]>>
Mirrored(s) == <<s[1], NNeg(s[2]), NNeg(s[3]), NNeg(s[4])>>           \* left and right exchanged
Flipped(s)  == <<NNeg(s[1]), s[2], NNeg(s[3]), s[4]>>                 \* front and back exchanged
Scaled(f, s) == <<NMul(f, s[1]), NMul(f, s[2]), s[3], NDiv(s[4], f)>>
SwappedKind(k) == CASE k = "CC0pmD" -> "CCpm0D" [] k = "CCpm0D" -> "CC0pmD" [] k = "HC0pm" -> "HCpm0" [] k = "HCpm0" -> "HC0pm" [] OTHER -> k
Reversible(p, q) == q.kind = p.kind /\ NEq(p.kap, q.kap) /\ NEq(p.sig, q.sig) /\ q.fwd = IF OneWay(p.kind) THEN ~p.fwd ELSE p.fwd
Symmetric(e) == LET p == e.q[1] q == e.q[2] IN
  CASE e.rel = "move"   -> SameParams(p, q) /\ SameState(Turned(e.par, p.a), q.a) /\ SameState(Turned(e.par, p.b), q.b)
    [] e.rel = "mirror" -> SameParams(p, q) /\ SameState(Mirrored(p.a), q.a) /\ SameState(Mirrored(p.b), q.b)
    [] e.rel = "alias"  -> SameParams(p, q) /\ SameState(p.a, q.a) /\ SameState(p.b, q.b)
    [] e.rel = "scale"  -> /\ p.kind = q.kind /\ p.fwd = q.fwd /\ NNear(NMul(q.kap, e.par[1]), p.kap, Eps) /\ NNear(NMul(q.sig, NSq(e.par[1])), p.sig, Eps)
                           /\ SameState(Scaled(e.par[1], p.a), q.a) /\ SameState(Scaled(e.par[1], p.b), q.b)
    [] e.rel = "swap"   -> /\ q.kind = SwappedKind(p.kind) /\ NEq(p.kap, q.kap) /\ NEq(p.sig, q.sig) /\ q.fwd = IF OneWay(p.kind) THEN ~p.fwd ELSE p.fwd
                           /\ SameState(p.a, q.b) /\ SameState(p.b, q.a)
    [] e.rel = "flip"   -> Reversible(p, q) /\ SameState(Flipped(p.a), q.a) /\ SameState(Flipped(p.b), q.b)
(* what the library's absolute resolution (1e-4) can tell apart *)
Clear(v) == NEq(v, Zero) \/ NLt(N("1e-3"), NAbs(v))
Resolvable(p) == /\ NLe(N("0.05"), p.kap) /\ NLe(p.kap, N("10")) /\ Clear(p.a[4]) /\ Clear(p.b[4]) /\ Clear(NSub(p.kap, NAbs(p.a[4]))) /\ Clear(NSub(p.kap, NAbs(p.b[4])))
                 /\ ~SamePose(p.a, p.b, N("0.02"))
TolRel(p) == NAdd(NMul(IF Plain(p.kind) THEN N("2e-5") ELSE N("2.4e-3"), Scale(p.kind, p.kap, p.sig)), NMul(N("1e-6"), p.D))
Equal(e) == LET p == e.q[1] q == e.q[2] IN
            /\ NFinite(p.D) /\ NFinite(q.D)
            /\ NNear(p.D, IF e.rel = "scale" THEN NDiv(q.D, e.par[1]) ELSE q.D, TolRel(p))
\* known finding, see Planner.tla
Exempt(e) == /\ e.rel \in {"mirror", "flip"} /\ e.q[1].kind \in LopsidedKinds
             /\ LET s == IF NLt(e.q[1].D, e.q[2].D) THEN e.q[1] ELSE e.q[2] IN Lopsided(s.c)
Breaks10(e) == Symmetric(e) /\ ~Equal(e) /\ ~Exempt(e) /\ (e.rel = "scale" => Resolvable(e.q[1]) /\ Resolvable(e.q[2]))
(* ---- hierarchy, monotonicity, additivity ------------------------------- *)
Fixed(kind, s, e) == IF kind = "CCD" THEN CASE s = 0 /\ e = 0 -> "CC00D" [] s = 0 -> "CC0pmD" [] e = 0 -> "CCpm0D" [] OTHER -> "CCpmpmD"
                                     ELSE CASE s = 0 /\ e = 0 -> "HC00" [] s = 0 -> "HC0pm" [] e = 0 -> "HCpm0" [] OTHER -> "HCpmpm"
MaxKap(cs, k0) == LET f[k \in 0..Len(cs)] == IF k = 0 THEN k0 ELSE NMax(f[k - 1], NMax(NAbs(Kap(cs[k])), NAbs(KapEnd(cs[k])))) IN f[Len(cs)]
DrivenEnd(e) == LET p == DriveAll(<<e.q[1].a[1], e.q[1].a[2], e.q[1].a[3]>>, e.w) IN p
TolSub(e) == NAdd(NMul(N("1e-4"), Scale("RS", e.q[2].kap, One)), NMul(N("1e-6"), e.q[1].D))
\* the pair is an instance of the relation
Instance(e) == LET p == e.q[1] IN
  CASE e.rel = "euclid" -> TRUE
    [] e.rel \in {"rs", "dubins"} -> LET q == e.q[2] t == DrivenEnd(e) IN
          /\ q.kind = (IF e.rel = "rs" THEN "RS" ELSE "Dubins") /\ NLe(MaxKap(e.w, p.kap), q.kap) /\ SameState(p.a, q.a)
          /\ NLe(PosDist(t, q.b), NMul(Eps, NAdd(One, PathLen(e.w)))) /\ NAngNear(t[3], q.b[3], Eps)
          /\ e.rel = "dubins" => \A k \in 1..Len(e.w) : NLt(N("1e-9"), SegLen(e.w[k])) => SegDir(e.w[k]) = IF q.fwd THEN 1 ELSE -1
    [] e.rel = "general" -> LET q == e.q[2] IN /\ General(p.kind) /\ NEq(p.kap, q.kap) /\ NEq(p.sig, q.sig) /\ p.fwd = q.fwd
          /\ q.kind = Fixed(p.kind, Sgn0(p.a[4]), Sgn0(p.b[4])) /\ SameState(p.a, q.a) /\ SameState(p.b, q.b)
          /\ \A v \in {p.a[4], p.b[4]} : NEq(v, Zero) \/ NEq(NAbs(v), p.kap)
    [] e.rel = "kappa" -> LET q == e.q[2] IN p.kind = q.kind /\ Plain(p.kind) /\ p.fwd = q.fwd /\ NLe(p.kap, q.kap) /\ SameState(p.a, q.a) /\ SameState(p.b, q.b)
    [] e.rel = "split" -> LET q == e.q[2] r == e.q[3] IN Plain(p.kind) /\ SameParams(p, q) /\ SameParams(p, r) /\ SameState(p.a, q.a) /\ SameState(q.b, r.a) /\ SameState(p.b, r.b)
Ordered(e) == LET p == e.q[1] IN (\A k \in 1..Len(e.q) : NFinite(e.q[k].D)) /\
  CASE e.rel = "euclid" -> NLe(PosDist(p.a, p.b), NAdd(p.D, TolRel(p)))
    [] e.rel \in {"rs", "dubins"} -> NLe(e.q[2].D, NAdd(PathLen(e.w), TolSub(e)))
    [] e.rel = "general" -> NLe(p.D, NAdd(e.q[2].D, TolRel(p)))
    [] e.rel = "kappa" -> NLe(e.q[2].D, NAdd(p.D, TolRel(p)))
    [] e.rel = "split" -> NNear(NAdd(e.q[2].D, e.q[3].D), p.D, TolRel(p))
Breaks11(e) == Instance(e) /\ ~Ordered(e)
(* ------------------------------------------------------------------------ *)
Is10(e) == e.rel \in {"move", "mirror", "alias", "scale", "swap", "flip"}
Breaks(e) == IF Is10(e) THEN Breaks10(e) ELSE Breaks11(e)
Init == i \in 1..Len(Cases) /\ n = 1 /\ all = TRUE
Look == n <= Len(C) /\ all' = (all /\ Breaks(C[n])) /\ n' = n + 1 /\ UNCHANGED i
Next == Look
Spec == Init /\ [][Next]_vars
SomeFits == n > Len(C) => ~all
\* the recorded queries are related as they claim
Sound == n <= Len(C) => IF Is10(C[n]) THEN Symmetric(C[n]) ELSE Instance(C[n])
Reported == (n <= Len(C) /\ Is10(C[n]) /\ ~Equal(C[n]) /\ Exempt(C[n])) => PrintT("KNOWN " \o ToString(i))
=============================================================================
