----------------------------- MODULE Ownership ------------------------------
(***************************************************************************)
(* C16.  The heap as a state machine: blocks are allocated, used while     *)
(* they are live and within their bounds, and released once, with the form *)
(* (single object or array) and size they were allocated with.  A query    *)
(* leaves as many live blocks as it found; when all planners are destroyed *)
(* none is left.  Recorded events: <<1, id, size, form>> allocated,        *)
(* <<2, id, size, form>> released (size 0: not stated; id <= 0: no block   *)
(* starts there), <<3, id, lo, hi>> bytes lo .. hi-1 used, <<4, ..>> query *)
(* begins, <<5, ..>> query ends, <<6, bytes, ..>> bytes in use.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, n, live, entry, bad
vars == <<i, n, live, entry, bad>>
Ev == Cases[i].ev
E == Ev[n]
Known(id) == id \in DOMAIN live
Init == i \in 1..Len(Cases) /\ n = 1 /\ live = <<>> /\ entry = {} /\ bad = ""
Alloc == /\ E[1] = 1 /\ ~Known(E[2]) /\ live' = live @@ (E[2] :> <<E[3], E[4]>>) /\ UNCHANGED <<entry, bad>>
Free == /\ E[1] = 2 /\ UNCHANGED entry
        /\ IF ~Known(E[2]) THEN bad' = "released twice, or not a block" /\ UNCHANGED live
           ELSE /\ live' = [b \in DOMAIN live \ {E[2]} |-> live[b]]
                /\ bad' = IF E[4] # live[E[2]][2] THEN "released with the wrong form"
                          ELSE IF E[3] \notin {0, live[E[2]][1]} THEN "released with the wrong size" ELSE bad
Use == /\ E[1] = 3 /\ UNCHANGED <<live, entry>>
       /\ bad' = IF ~Known(E[2]) THEN "used after release" ELSE IF E[3] < 0 \/ E[4] > live[E[2]][1] THEN "used outside its bounds" ELSE bad
Begin == E[1] = 4 /\ entry' = DOMAIN live /\ UNCHANGED <<live, bad>>
End == E[1] = 5 /\ UNCHANGED <<live, entry>> /\ bad' = IF DOMAIN live # entry THEN "a query kept or lost blocks" ELSE bad
\* bytes in use, reported by the allocator of an address-checking build after each repetition of a query
Level == /\ E[1] = 6 /\ UNCHANGED live /\ entry' = {E[2]} /\ bad' = IF entry \notin {{}, {E[2]}} THEN "memory grows with repetitions" ELSE bad
Next == n <= Len(Ev) /\ n' = n + 1 /\ UNCHANGED i /\ (Alloc \/ Free \/ Use \/ Begin \/ End \/ Level)
Spec == Init /\ [][Next]_vars
Owned == bad = ""
NothingLeft == n > Len(Ev) => live = <<>>
\* every event is one of the above
Progress == n <= Len(Ev) => ENABLED Next
=============================================================================
