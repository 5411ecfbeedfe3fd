------------------------------ MODULE History -------------------------------
(***************************************************************************)
(* Everything a client can do with planner objects: create them with one   *)
(* of two parameter sets, copy and assign them, set filter parameters, ask *)
(* one of two queries, destroy them.  TLC enumerates every history up to a *)
(* length; each is replayed into the real code (C15, C16), answers and     *)
(* memory events are validated by Purity.tla and Ownership.tla.            *)
(* The model carries the specification of purity: an answer is a function  *)
(* of the parameters the object carries, and nothing an operation does to  *)
(* one object changes another.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Slots, MaxLen
VARIABLES obj, hist
vars == <<obj, hist>>
Params == {1, 2}
Filters == {0, 1, 2}                     \* 0: as constructed
Queries == {1, 2}
None == [p |-> 0, f |-> 0]
Alive(s) == obj[s].p # 0
Do(op) == hist' = Append(hist, op)
New(s, p) == /\ ~Alive(s) /\ obj' = [obj EXCEPT ![s] = [p |-> p, f |-> 0]] /\ Do(<<"new", s, p>>)
Copy(s, t) == /\ Alive(s) /\ ~Alive(t) /\ obj' = [obj EXCEPT ![t] = obj[s]] /\ Do(<<"copy", s, t>>)
Assign(s, t) == /\ Alive(s) /\ Alive(t) /\ s # t /\ obj' = [obj EXCEPT ![t] = obj[s]] /\ Do(<<"assign", s, t>>)
Set(s, f) == /\ Alive(s) /\ obj[s].f # f /\ obj' = [obj EXCEPT ![s].f = f] /\ Do(<<"set", s, f>>)
Ask(s, q) == /\ Alive(s) /\ UNCHANGED obj /\ Do(<<"ask", s, q>>)
Del(s) == /\ Alive(s) /\ obj' = [obj EXCEPT ![s] = None] /\ Do(<<"del", s, 0>>)
\* slots, parameter sets and queries are interchangeable: the first use of each comes in order
Used(k, v) == \E n \in 1..Len(hist) : hist[n][1] = k /\ hist[n][3] = v
Ordered == /\ (\A n \in 1..Len(hist) : hist[n][1] = "new" => (hist[n][3] = 2 => \E m \in 1..n : hist[m] = <<"new", hist[m][2], 1>>))
           /\ (\A n \in 1..Len(hist) : hist[n][1] = "ask" => (hist[n][3] = 2 => \E m \in 1..n : hist[m][1] = "ask" /\ hist[m][3] = 1))
           /\ (\A n \in 1..Len(hist) : hist[n][1] = "set" => (hist[n][3] = 2 => \E m \in 1..n : hist[m][1] = "set" /\ hist[m][3] = 1))
           /\ (hist # <<>> => hist[1][2] = 1)
Init == obj = [s \in Slots |-> None] /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E s \in Slots : \/ \E p \in Params : New(s, p)
                            \/ \E t \in Slots : Copy(s, t) \/ Assign(s, t)
                            \/ \E f \in Filters \ {0} : Set(s, f)
                            \/ \E q \in Queries : Ask(s, q)
                            \/ Del(s)
Spec == Init /\ [][Next]_vars
(* the design properties: replaying the history from scratch for one object alone, following copies
   backwards, gives the state the object has *)
Origin(s) == LET f[n \in 0..Len(hist)] == \* [slot -> state] after n operations, computed by substitution
                 IF n = 0 THEN [t \in Slots |-> None]
                 ELSE LET h == hist[n] b == f[n - 1] IN
                      CASE h[1] = "new" -> [b EXCEPT ![h[2]] = [p |-> h[3], f |-> 0]]
                        [] h[1] \in {"copy", "assign"} -> [b EXCEPT ![h[3]] = b[h[2]]]
                        [] h[1] = "set" -> [b EXCEPT ![h[2]].f = h[3]]
                        [] h[1] = "del" -> [b EXCEPT ![h[2]] = None]
                        [] OTHER -> b
             IN f[Len(hist)][s]
Consistent == \A s \in Slots : obj[s] = Origin(s)
\* no operation changes an object it does not name
Isolated == [][\A s \in Slots : obj'[s] # obj[s] => LET h == hist'[Len(hist')] IN s = (IF h[1] \in {"copy", "assign"} THEN h[3] ELSE h[2])]_vars
Interesting == hist # <<>> /\ hist[Len(hist)][1] = "ask" /\ Len(hist) > 1
Emit == Interesting => PrintT("HIST" \o ToJson(hist))
Bound == Ordered
=============================================================================
