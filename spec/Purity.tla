------------------------------- MODULE Purity -------------------------------
(***************************************************************************)
(* C15, answers.  A recorded history of operations on planner objects (see *)
(* History.tla for what the operations do to the objects), each query with *)
(* the answer it got, and the answers a process gives in which nothing     *)
(* else ever happened.  Answers are numbered; equal numbers mean equal to  *)
(* the last bit.  Objects and stack are full of garbage that differs from  *)
(* call to call.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, n, obj, ok
vars == <<i, n, obj, ok>>
H == Cases[i].h
None == [p |-> 0, f |-> 0]
\* what a pristine process answers: a function of parameters, filter parameters (where they matter), query and operation
Cov == 3
Pure(o, q, op) == LET k == <<o.p, IF op = Cov THEN o.f ELSE 0, q, op>> IN
  (CHOOSE r \in {Cases[i].ref[j] : j \in 1..Len(Cases[i].ref)} : SubSeq(r, 1, 4) = k)[5]
E == H[n]
Step == /\ n <= Len(H) /\ n' = n + 1 /\ UNCHANGED i
        /\ CASE E[1] = "new" -> obj[E[2]] = None /\ obj' = [obj EXCEPT ![E[2]] = [p |-> E[3], f |-> 0]] /\ ok' = ok
             [] E[1] \in {"copy", "assign"} -> obj[E[2]] # None /\ obj' = [obj EXCEPT ![E[3]] = obj[E[2]]] /\ ok' = ok
             [] E[1] = "set" -> obj[E[2]] # None /\ obj' = [obj EXCEPT ![E[2]].f = E[3]] /\ ok' = ok
             [] E[1] = "del" -> obj[E[2]] # None /\ obj' = [obj EXCEPT ![E[2]] = None] /\ ok' = ok
             [] E[1] = "ask" -> obj[E[2]] # None /\ UNCHANGED obj /\ ok' = (E[5] = Pure(obj[E[2]], E[3], E[4]))
Init == i \in 1..Len(Cases) /\ n = 1 /\ obj = [s \in {1, 2} |-> None] /\ ok = TRUE
Spec == Init /\ [][Step]_vars
\* every recorded answer is the one of the pristine process
AnswersArePure == ok
=============================================================================
