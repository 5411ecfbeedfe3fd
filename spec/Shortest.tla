------------------------------ MODULE Shortest ------------------------------
(***************************************************************************)
(* C07, C08: the distance of the Dubins and of the Reeds-Shepp planner is  *)
(* the length of the shortest word.  A recorded case carries the answer of *)
(* the planner and, if the goal was made by driving a word of Words.tla,   *)
(* that word as a witness.                                                 *)
(***************************************************************************)
EXTENDS Planner, Json, TLC, IOUtils
D == INSTANCE Dubins
X == INSTANCE ReedsShepp
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
C == Cases[i]
Init == i \in 1..Len(Cases)
Next == UNCHANGED i
Spec == Init /\ [][Next]_i
Goal == LET g == IF C.fwd THEN Local(C.a, C.b) ELSE Local(C.b, C.a) IN <<NMul(C.kap, g[1]), NMul(C.kap, g[2]), g[3]>>
Dn == NMul(C.kap, C.D)                        \* distance for unit curvature
Far == NAdd(One, NHypot(Goal[1], Goal[2]))
(* witness *)
Plen == PathLen(C.w)
WitnessValid == /\ \A j \in 1..Len(C.w) : NEq(Sig(C.w[j]), Zero) /\ NLe(NAbs(Kap(C.w[j])), NMul(C.kap, N("1.0000000001")))
                /\ C.kind = "Dubins" => \A j \in 1..Len(C.w) : NEq(Ds(C.w[j]), Zero) \/ SegDir(C.w[j]) = IF C.fwd THEN 1 ELSE -1
                /\ LET p == DriveAll(<<C.a[1], C.a[2], C.a[3]>>, C.w)
                   IN NLe(PosDist(p, C.b), NMul(N("1e-11"), NAdd(One, NAdd(Plen, Mag(C.a, C.b))))) /\ NAngNear(p[3], C.b[3], N("1e-11"))
\* words given by the grammar; their turns are at most a full circle
NoShorterWitness == (Len(C.w) > 0 /\ WitnessValid) => NLe(C.D, NAdd(Plen, NMul(N("1e-5"), NAdd(One, NDiv(One, C.kap)))))
(* C07 *)
TolD == NMul(N("5e-6"), Far)
DubinsShortest == /\ NLe(NSub(D!Shortest(Goal), TolD), Dn) /\ NLe(Dn, NAdd(D!Attained(Goal), TolD))
                  /\ NoShorterWitness
(* C08.  The Reeds-Shepp metric changes like the square root of a sideways displacement. *)
TolX == NMul(N("3e-5"), Far)
RSShortest == /\ X!NoShorter(Goal, NSub(Dn, TolX)) /\ X!Reached(Goal, NAdd(Dn, TolX)) /\ NoShorterWitness
=============================================================================
