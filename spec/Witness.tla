------------------------------ MODULE Witness -------------------------------
(***************************************************************************)
(* C09: no feasible path of the planner's families is shorter than the     *)
(* reported distance.  A recorded case is a query, a witness path for it,  *)
(* and, where the witness was shorter, variants of the same situation      *)
(* (moved rigidly, or with other lengths of arcs and straight lines), each *)
(* with its own witness.  The property is violated if every variant has a  *)
(* valid witness shorter than the distance: a single one may sit where two *)
(* families meet and rounding decides.                                     *)
(***************************************************************************)
EXTENDS Feasible, Json, TLC, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, n, all
vars == <<i, n, all>>
C == Cases[i].l
Tol(q) == NAdd(NMul(N("1.2e-3"), Scale(q.kind, q.kap, q.sig)), NMul(N("1e-6"), PathLen(q.w)))
Shorter(q) == IsPath(q, q.w) /\ ~NLe(q.D, NAdd(PathLen(q.w), Tol(q)))
\* known finding (Planner.tla): the mirror image of such a path is not searched
Exempt(q) == q.src = "mirror" /\ q.kind \in LopsidedKinds /\ Lopsided(q.w)
Beaten(q) == ~NFinite(q.D) \/ (Shorter(q) /\ ~Exempt(q))
Init == i \in 1..Len(Cases) /\ n = 1 /\ all = TRUE
Look == n <= Len(C) /\ all' = (all /\ Beaten(C[n])) /\ n' = n + 1 /\ UNCHANGED i
Next == Look
Spec == Init /\ [][Next]_vars
NotBeaten == n > Len(C) => ~all
\* the witnesses are what they claim to be
Witnessed == n <= Len(C) => IsPath(C[n], C[n].w) \/ SamePose(C[n].a, C[n].b, N("3e-4"))
Reported == (n <= Len(C) /\ C[n].src = "mirror" /\ Shorter(C[n]) /\ Exempt(C[n])) => PrintT("KNOWN " \o ToString(i))
=============================================================================
