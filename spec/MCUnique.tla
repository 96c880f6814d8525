------------------------------ MODULE MCUnique ------------------------------
(* The design: threads ask for keys. A key that is visible is taken without *)
(* lock; otherwise the thread locks, looks again, makes the object, gives   *)
(* it its attributes, makes it visible and unlocks. A second part counts    *)
(* the users of a lock per object and removes it with the last user.        *)
EXTENDS Unique, TLC
CONSTANTS Threads, Keys, Rounds
VARIABLES pc, want, lock, seen, fresh, got, s, left, users, held
vars == <<pc, want, lock, seen, fresh, got, s, left, users, held>>
None == 0
Init == /\ pc = [t \in Threads |-> "idle"] /\ want = [t \in Threads |-> CHOOSE k \in Keys : TRUE] /\ lock = None
        /\ seen = {} /\ fresh = 1 /\ got = [t \in Threads |-> [val |-> NoVal, ok |-> FALSE]] /\ s = Empty
        /\ left = [t \in Threads |-> Rounds] /\ users = [k \in Keys |-> 0] /\ held = [k \in Keys |-> None]
Line(k, t, key, val, ok) == [k |-> k, th |-> t, key |-> key, val |-> val, keep |-> TRUE, ok |-> ok, exc |-> ""]
Find(k) == CHOOSE x \in seen : x.key = k
Has(k) == \E x \in seen : x.key = k
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Ask(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ \E k \in Keys : want' = [want EXCEPT ![t] = k]
          /\ left' = [left EXCEPT ![t] = @ - 1]
          /\ \/ Go(t, "look") \/ Go(t, "register")
          /\ UNCHANGED <<lock, seen, fresh, got, s, users, held>>
Take(t, obj) == got' = [got EXCEPT ![t] = [val |-> obj.val, ok |-> obj.ready]]
Look(t) == /\ pc[t] = "look"
           /\ IF Has(want[t]) THEN Take(t, Find(want[t])) /\ Go(t, "return") ELSE Go(t, "lock") /\ UNCHANGED got
           /\ UNCHANGED <<want, lock, seen, fresh, s, left, users, held>>
Lock(t) == /\ pc[t] = "lock" /\ lock = None /\ lock' = t /\ Go(t, "again")
           /\ UNCHANGED <<want, seen, fresh, got, s, left, users, held>>
Again(t) == /\ pc[t] = "again"
            /\ IF Has(want[t]) THEN Take(t, Find(want[t])) /\ Go(t, "unlock") /\ UNCHANGED s
               ELSE Go(t, "make") /\ UNCHANGED got /\ s' = After(s, Line("begin", t, want[t], 0, TRUE))
            /\ UNCHANGED <<want, lock, seen, fresh, left, users, held>>
Make(t) == /\ pc[t] = "make" /\ got' = [got EXCEPT ![t] = [val |-> fresh, ok |-> FALSE]] /\ fresh' = fresh + 1 /\ Go(t, "name")
           /\ UNCHANGED <<want, lock, seen, s, left, users, held>>
Name(t) == /\ pc[t] = "name" /\ got' = [got EXCEPT ![t].ok = TRUE] /\ Go(t, "show")
           /\ UNCHANGED <<want, lock, seen, fresh, s, left, users, held>>
Show(t) == /\ pc[t] = "show" /\ seen' = seen \cup {[key |-> want[t], val |-> got[t].val, ready |-> got[t].ok]}
           /\ s' = After(s, Line("end", t, want[t], got[t].val, TRUE)) /\ Go(t, "unlock")
           /\ UNCHANGED <<want, lock, fresh, got, left, users, held>>
Unlock(t) == /\ pc[t] = "unlock" /\ lock = t /\ lock' = None /\ Go(t, "return")
             /\ UNCHANGED <<want, seen, fresh, got, s, left, users, held>>
Return(t) == /\ pc[t] = "return" /\ Go(t, "idle")
             /\ s' = After(s, Line("ret", t, want[t], got[t].val, got[t].ok))
             /\ UNCHANGED <<want, lock, seen, fresh, got, left, users, held>>
\* the lock of an object
Register(t) == pc[t] = "register" /\ users' = [users EXCEPT ![want[t]] = @ + 1] /\ Go(t, "enter")
               /\ UNCHANGED <<want, lock, seen, fresh, got, s, left, held>>
Enter(t) == pc[t] = "enter" /\ held[want[t]] = None /\ held' = [held EXCEPT ![want[t]] = t] /\ Go(t, "inside")
            /\ s' = After(s, Line("enter", t, want[t], 0, TRUE)) /\ UNCHANGED <<want, lock, seen, fresh, got, left, users>>
Leave(t) == pc[t] = "inside" /\ held' = [held EXCEPT ![want[t]] = None] /\ Go(t, "drop")
            /\ s' = After(s, Line("leave", t, want[t], 0, TRUE)) /\ UNCHANGED <<want, lock, seen, fresh, got, left, users>>
Drop(t) == pc[t] = "drop" /\ users' = [users EXCEPT ![want[t]] = @ - 1] /\ Go(t, "idle")
           /\ UNCHANGED <<want, lock, seen, fresh, got, s, left, held>>
Step(t) == Ask(t) \/ Look(t) \/ Lock(t) \/ Again(t) \/ Make(t) \/ Name(t) \/ Show(t) \/ Unlock(t) \/ Return(t)
           \/ Register(t) \/ Enter(t) \/ Leave(t) \/ Drop(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))
One == \A x, y \in s.made : x[1] = y[1] => x = y
Once == \A x, y \in s.busy : x[1] = y[1] => x = y
Usable == \A t \in Threads : pc[t] = "return" => got[t].ok /\ got[t].val = Find(want[t]).val
Mutex == \A x, y \in s.in : x[1] = y[1] => x = y
Cleaned == (\A t \in Threads : pc[t] = "idle") => \A k \in Keys : users[k] = 0
Finish == <>[](\A t \in Threads : pc[t] = "idle" /\ left[t] = 0)
=============================================================================
