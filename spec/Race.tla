-------------------------------- MODULE Race --------------------------------
(***************************************************************************)
(* C15, concurrency.  Two threads run one query each on the same planner   *)
(* object.  What each does to memory it shares with others (the object,    *)
(* its arguments, global and static data; own stack and own heap blocks    *)
(* excluded) was recorded from the real code; TLC runs both in every       *)
(* interleaving.  <<t, l>>: 0 read, 1 write, 2 atomic read, 3 atomic write *)
(* of word l, 4 lock and 5 unlock of mutex l.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, pc, owner
vars == <<i, pc, owner>>
Th == {1, 2}
T(t) == Cases[i].th[t]
At(t) == T(t)[pc[t]]
Running(t) == pc[t] <= Len(T(t))
\* only what touches a word somebody writes, or a mutex, can matter: the rest commutes with everything
Written == {e[2] : e \in {T(t)[k] : t \in Th, k \in 1..0} } \cup
           UNION {{T(t)[k][2] : k \in {m \in 1..Len(T(t)) : T(t)[m][1] \in {1, 3}}} : t \in Th}
Matters(e, w) == e[1] >= 4 \/ e[2] \in w
SkipTo(t, k, w) == CHOOSE m \in k..(Len(T(t)) + 1) : (m = Len(T(t)) + 1 \/ Matters(T(t)[m], w)) /\ \A j \in k..(m - 1) : ~Matters(T(t)[j], w)
Advance(t) == pc' = [pc EXCEPT ![t] = SkipTo(t, pc[t] + 1, Written)]
Access(t) == Running(t) /\ At(t)[1] <= 3 /\ Advance(t) /\ UNCHANGED <<i, owner>>
Lock(t) == Running(t) /\ At(t)[1] = 4 /\ At(t)[2] \notin DOMAIN owner /\ owner' = owner @@ (At(t)[2] :> t) /\ Advance(t) /\ UNCHANGED i
Unlock(t) == Running(t) /\ At(t)[1] = 5 /\ owner' = [m \in DOMAIN owner \ {At(t)[2]} |-> owner[m]] /\ Advance(t) /\ UNCHANGED i
Init == i \in 1..Len(Cases) /\ pc = [t \in Th |-> SkipTo(t, 1, Written)] /\ owner = <<>>
Next == \E t \in Th : Access(t) \/ Lock(t) \/ Unlock(t)
Spec == Init /\ [][Next]_vars
Writes(e) == e[1] \in {1, 3}
Conflict(e, f) == e[1] <= 3 /\ f[1] <= 3 /\ e[2] = f[2] /\ (Writes(e) \/ Writes(f)) /\ ~(e[1] \in {2, 3} /\ f[1] \in {2, 3})
NoRace == (Running(1) /\ Running(2)) => ~Conflict(At(1), At(2))
\* a query does not change memory it shares with others at all, unless it does so under a lock or atomically
NoPlainWrite == \A t \in Th : Running(t) => ~(At(t)[1] = 1 /\ \A m \in DOMAIN owner : owner[m] # t)
=============================================================================
