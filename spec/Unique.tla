------------------------------- MODULE Unique -------------------------------
(* Objects that are made on demand and kept. made: the values per key       *)
(* (sequence of <<key, value>>), busy: keys whose factory runs, in: objects *)
(* whose lock is held, by whom.                                             *)
EXTENDS Integers, Sequences, FiniteSets
NoVal == -1
Empty == [made |-> {}, busy |-> {}, in |-> {}, failed |-> {}]
Known(s, k) == \E x \in s.made : x[1] = k
ValOf(s, k) == (CHOOSE x \in s.made : x[1] = k)[2]
\* q: [k: kind of line, th, key, val, keep (the result is kept), ok (usable), exc]
Allowed(s, q) ==
    CASE q.k = "req" -> TRUE
      \* the factory is not called again for a known value, nor at the same time
      [] q.k = "begin" -> ~Known(s, q.key) /\ ~ \E b \in s.busy : b[1] = q.key
      [] q.k = "end" -> <<q.key, q.th>> \in s.busy
      \* everybody gets the one object, and can use it
      [] q.k = "ret" -> q.ok /\ (Known(s, q.key) => q.val = ValOf(s, q.key))
      [] q.k = "raised" -> <<q.key, q.th>> \in s.failed
      [] q.k = "enter" -> ~ \E x \in s.in : x[1] = q.key
      [] q.k = "leave" -> <<q.key, q.th>> \in s.in
      [] q.k = "gone" -> q.ok
      [] q.k = "eq" -> q.ok
After(s, q) ==
    CASE q.k = "begin" -> [s EXCEPT !.busy = @ \cup {<<q.key, q.th>>}]
      [] q.k = "end" -> [s EXCEPT !.busy = @ \ {<<q.key, q.th>>},
                                  !.made = IF q.keep THEN @ \cup {<<q.key, q.val>>} ELSE @,
                                  !.failed = IF q.exc # "" THEN @ \cup {<<q.key, q.th>>} ELSE @]
      [] q.k = "ret" -> [s EXCEPT !.made = IF q.keep THEN @ \cup {<<q.key, q.val>>} ELSE @]
      [] q.k = "raised" -> [s EXCEPT !.failed = @ \ {<<q.key, q.th>>}]
      [] q.k = "enter" -> [s EXCEPT !.in = @ \cup {<<q.key, q.th>>}]
      [] q.k = "leave" -> [s EXCEPT !.in = @ \ {<<q.key, q.th>>}]
      [] OTHER -> s
=============================================================================
