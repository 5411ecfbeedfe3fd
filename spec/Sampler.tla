------------------------------ MODULE Sampler -------------------------------
(***************************************************************************)
(* How a control sequence becomes a sequence of states.  Lengths are       *)
(* integers (units), a step is H units, curvature and sharpness are small  *)
(* integers.  TLC enumerates every sequence of up to MaxSegs segments over *)
(* the alphabet, checks the guarantees of the sampled path on all of them, *)
(* and prints the sequences; the harness gives them to the real code and   *)
(* SampleTrace.tla judges the states that come back.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets
CONSTANTS H, MaxLen, MaxSegs, Sigmas
Segments == { <<l, d, k, s>> \in (0..MaxLen) \X {-1, 1} \X {-1, 0, 1} \X Sigmas : l = 0 => d = 1 }
Controls == UNION { [1..n -> Segments] : n \in 1..MaxSegs }
Signed == {-1, 0, 1}
Flat == {0}
VARIABLES cs, j, u, kap, dir, out, s
vars == <<cs, j, u, kap, dir, out, s>>
L(q) == q[1]
Dir(q) == q[2]
Kap(q) == q[3]
Sig(q) == q[4]
\* an emitted state: segment, arc length in the segment, arc length in the path, curvature, direction, repeated
St(seg, uu, ss, k, d, r) == [seg |-> seg, u |-> uu, s |-> ss, k |-> k, d |-> d, r |-> r]
Init == /\ cs \in Controls /\ j = 1 /\ u = 0 /\ s = 0
        /\ kap = Kap(cs[1]) /\ dir = Dir(cs[1])
        /\ out = <<St(1, 0, 0, Kap(cs[1]), Dir(cs[1]), FALSE)>>
Done == j > Len(cs)
Cur == cs[j]
Jump == ~Done /\ u = 0 /\ kap # Kap(Cur)
\* the curvature jumps: the state is repeated with the new curvature and direction
Repeat == /\ Jump
          /\ kap' = Kap(Cur) /\ dir' = Dir(Cur)
          /\ out' = Append(out, St(j, 0, s, kap', dir', TRUE))
          /\ UNCHANGED <<cs, j, u, s>>
Step == /\ ~Done /\ ~Jump /\ u < L(Cur)
        /\ LET du == IF u + H > L(Cur) THEN L(Cur) - u ELSE H
           IN /\ u' = u + du /\ s' = s + du /\ kap' = kap + Sig(Cur) * du /\ dir' = Dir(Cur)
              /\ out' = Append(out, St(j, u', s', kap', dir', FALSE))
        /\ UNCHANGED <<cs, j>>
NextSegment == /\ ~Done /\ ~Jump /\ u = L(Cur)
               /\ j' = j + 1 /\ u' = 0 /\ UNCHANGED <<cs, kap, dir, out, s>>
Next == Repeat \/ Step \/ NextSegment
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE L(q[1]) + Sum(Tail(q))
Ceil(a, b) == (a + b - 1) \div b
\* guarantees
NoGap == \A n \in 1..(Len(out) - 1) : out[n + 1].s - out[n].s \in 0..H
EndsAtEnd == Done => out[Len(out)].s = Sum(cs)
EveryMultiple == Done => \A q \in 1..Len(cs) : { out[n].u : n \in {m \in 1..Len(out) : out[m].seg = q /\ out[m].u > 0} }
                   = { x \in 1..L(cs[q]) : x % H = 0 \/ x = L(cs[q]) }
Count == Done => Cardinality({n \in 1..Len(out) : ~out[n].r}) =
                 1 + (LET f[q \in 0..Len(cs)] == IF q = 0 THEN 0 ELSE f[q - 1] + Ceil(L(cs[q]), H) IN f[Len(cs)])
StateOnPath == \A n \in 1..Len(out) : out[n].k = Kap(cs[out[n].seg]) + Sig(cs[out[n].seg]) * out[n].u
RepeatedOnlyAtJump == \A n \in 2..Len(out) : out[n].r => out[n].s = out[n - 1].s /\ out[n].k # out[n - 1].k
PrintSeq == Done => PrintT("SEQ " \o ToJson([h |-> H, cs |-> cs]))
=============================================================================
