-------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* The grammar of the paths: how a planner composes turns (T), straight    *)
(* segments (S) and cusps (c) of a family into segments, and which         *)
(* curvature and driving direction each of them has.  Curvature is         *)
(* abstracted to 0 and +-1 (the maximum); the state graph of a planner is  *)
(* the set of all its words.  TLC checks exhaustively that every word of   *)
(* every planner keeps the planner's promises, and prints the complete     *)
(* words; the harness drives them with concrete lengths to get the goals   *)
(* that are asked from the real planners.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
Kinds == {"Dubins", "RS", "CC00D", "CC0pmD", "CCpm0D", "CCpmpmD", "HC00", "HC0pm", "HCpm0", "HCpmpm", "CC00RS"}
OneWay == {"Dubins", "CC00D", "CC0pmD", "CCpm0D", "CCpmpmD"}
Plain == {"Dubins", "RS"}
Hybrid == {"HC00", "HC0pm", "HCpm0", "HCpmpm"}
Start0 == {"CC00D", "CC0pmD", "HC00", "HC0pm", "CC00RS"}     \* others start with maximum curvature
End0 == {"CC00D", "CCpm0D", "HC00", "HCpm0", "CC00RS"}
T == "T"
S == "S"
c == "c"
DubinsFamilies == {<<T>>, <<T,T>>, <<T,S,T>>, <<T,T,T>>}
RSFamilies == {<<T>>, <<T,T>>, <<T,c,T>>, <<T,c,T,c,T>>, <<T,c,T,T>>, <<T,T,c,T>>, <<T,S,T>>, <<T,S,T,c,T>>,
               <<T,c,T,S,T>>, <<T,c,T,S,T,c,T>>, <<T,T,c,T,T>>, <<T,c,T,T,c,T>>}
ExtraFamilies == {<<T,T,T>>, <<T,c,S,T>>, <<T,S,c,T>>, <<T,c,S,c,T>>}
Families(k) ==
  LET straight == IF k \in Plain \/ (k \in Start0 /\ k \in End0) THEN {<<S>>} ELSE {}
      core == IF k \in OneWay THEN DubinsFamilies ELSE RSFamilies
      extra == CASE k = "CCpmpmD" -> {<<T,T,T,T>>} [] k \in OneWay \cup Plain -> {} [] OTHER -> ExtraFamilies
  IN straight \cup core \cup extra
VARIABLES kind, fam, p, stage, rot, dir, kc, prevdir, word
vars == <<kind, fam, p, stage, rot, dir, kc, prevdir, word>>
At(j) == IF j \in 1..Len(fam) THEN fam[j] ELSE "end"
Done == p > Len(fam)
\* curvature with which the turn at position j begins and ends, as a factor of its rotation
BeginK(j) == IF kind \in Plain THEN 1
             ELSE IF j = 1 THEN (IF kind \in Start0 THEN 0 ELSE 1)
             ELSE IF kind \in Hybrid /\ At(j - 1) = c THEN 1 ELSE 0
EndK(j) == IF kind \in Plain THEN 1
           ELSE IF j = Len(fam) THEN (IF kind \in End0 THEN 0 ELSE 1)
           ELSE IF kind \in Hybrid /\ At(j + 1) = c THEN 1 ELSE 0
\* irregular turns: the arc is driven against the direction of its clothoids (not
\* next to a cusp with extremal curvature: the reversals would cancel)
IrregularAt(j) == /\ kind \in Hybrid \cup {"CC00RS"} /\ (BeginK(j) = 0 \/ EndK(j) = 0)
                  /\ (BeginK(j) = 1 => j = 1) /\ (EndK(j) = 1 => j = Len(fam))
Emit(t, d) == word' = Append(word, <<t, rot, d>>) /\ prevdir' = d
Keep == UNCHANGED <<kind, fam>>

Init == /\ kind \in Kinds /\ fam \in Families(kind) /\ p = 1 /\ stage = "begin"
        /\ rot \in {-1, 1} /\ dir \in (IF kind \in OneWay THEN {1} ELSE {-1, 1})
        /\ kc = (IF At(1) = S THEN 0 ELSE BeginK(1) * rot)
        /\ prevdir = 0 /\ word = <<>>
ClothoidIn == /\ At(p) = T /\ stage = "begin" /\ BeginK(p) = 0
              /\ Emit("I", dir) /\ kc' = rot /\ stage' = "arc" /\ Keep /\ UNCHANGED <<p, rot, dir>>
Elementary == /\ At(p) = T /\ stage = "begin" /\ BeginK(p) = 0 /\ EndK(p) = 0
              /\ Emit("E", dir) /\ kc' = 0 /\ stage' = "end" /\ Keep /\ UNCHANGED <<p, rot, dir>>
Arc == /\ At(p) = T /\ (stage = "arc" \/ (stage = "begin" /\ BeginK(p) = 1))
       /\ \/ Emit("A", dir)
          \/ IrregularAt(p) /\ Emit("A", -dir)
       /\ kc' = rot /\ stage' = (IF EndK(p) = 0 THEN "out" ELSE "end") /\ Keep /\ UNCHANGED <<p, rot, dir>>
ClothoidOut == /\ At(p) = T /\ stage = "out"
               /\ Emit("O", dir) /\ kc' = 0 /\ stage' = "end" /\ Keep /\ UNCHANGED <<p, rot, dir>>
Straight == /\ At(p) = S /\ stage = "begin"
            /\ Emit("S", dir) /\ kc' = 0 /\ stage' = "end" /\ Keep /\ UNCHANGED <<p, rot, dir>>
\* on to the next element: adjacent turns bend in opposite directions, a cusp reverses the motion
Advance == /\ stage = "end" /\ p < Len(fam) /\ stage' = "begin" /\ Keep /\ UNCHANGED <<word, prevdir>>
           /\ LET cusp == At(p + 1) = c
                  q == IF cusp THEN p + 2 ELSE p + 1
              IN /\ p' = q /\ dir' = (IF cusp THEN -dir ELSE dir)
                 /\ rot' \in (IF At(q) = T /\ At(p) = T THEN {-rot}
                              ELSE IF At(q) = T /\ At(p) = S THEN {-1, 1} ELSE {rot})
                 \* only a cusp of a hybrid planner (or a planner without sharpness limit) lets the curvature jump
                 /\ kc' = (IF (cusp /\ kind \in Hybrid) \/ kind \in Plain
                           THEN (IF At(q) = T THEN BeginK(q) * rot' ELSE 0) ELSE kc)
Finish == /\ stage = "end" /\ p = Len(fam) /\ p' = p + 1 /\ stage' = "done" /\ Keep
          /\ UNCHANGED <<rot, dir, kc, prevdir, word>>
Next == ClothoidIn \/ Elementary \/ Arc \/ ClothoidOut \/ Straight \/ Advance \/ Finish
Spec == Init /\ [][Next]_vars

TypeOK == kind \in Kinds /\ rot \in {-1, 1} /\ dir \in {-1, 1} /\ kc \in {-1, 0, 1} /\ Len(word) <= 14
(* the promises of the planners hold for every word of their grammar *)
NeverReverses == kind \in OneWay => dir = 1 /\ \A j \in 1..Len(word) : word[j][3] = 1
BoundaryCurvature == Done => /\ kind \in End0 => kc = 0
                             /\ (kind \notin End0 /\ kind \notin Plain) => kc # 0
\* curvature at the two ends of a segment of a word
K0(s) == CASE s[1] \in {"I", "S", "E"} -> 0 [] OTHER -> s[2]
K1(s) == CASE s[1] \in {"O", "S", "E"} -> 0 [] OTHER -> s[2]
ContinuousInWord == \A j \in 1..(Len(word) - 1) :
  \/ kind \in Plain \/ K1(word[j]) = K0(word[j + 1])
  \/ kind \in Hybrid /\ word[j][3] # word[j + 1][3]
StartInWord == Len(word) > 0 /\ kind \notin Plain => (K0(word[1]) = 0) = (kind \in Start0 \/ word[1][1] = "S")
CanFinish == ~Done => ENABLED Next
\* output of the complete words for the harness
PrintWord == Done => PrintT("WORD " \o ToJson([kind |-> kind, fam |-> fam, word |-> word]))
=============================================================================
