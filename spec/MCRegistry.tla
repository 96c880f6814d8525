----------------------------- MODULE MCRegistry -----------------------------
(* All histories of adding, inheriting, removing, copying and connecting    *)
(* registries within small constants: keys stay unique, an operation        *)
(* affects one registry only, and what is found is what is in there.        *)
EXTENDS Registry
CONSTANTS MaxOps, MaxRegs
VARIABLES regs, ops, last
Keys == {"m.A.r", "m.B.r"}
E(q, n, a, f, g) == [q |-> q, cls |-> IF q = "m.A.r" THEN <<65>> ELSE <<66>>, name |-> n, desc |-> n, section |-> <<>>, author |-> <<>>,
                     aliases |-> a, filenames |-> f, mimetypes |-> <<>>, guesses |-> g]
Names == {<<>>, <<97>>, <<66>>}
Globs == {<<>>, <<<< <<42, 46, 99>>, 2>>>>, <<<< <<120, 46, 42>>, 1>>, << <<42>>, 2>>>>}
Entries == {E(q, n, a, f, g) : q \in Keys, n \in Names, a \in {<<>>, <<<<98>>>>}, f \in Globs, g \in {<<>>, <<<< <<122>>, 1>>>>}}
Init == regs = <<[entries |-> {}, fb |-> 0]>> /\ ops = 0 /\ last = 1
Next ==
    /\ ops < MaxOps /\ ops' = ops + 1
    /\ \/ \E i \in 1..Len(regs), e \in Entries, h \in Keys \cup {""} :
            /\ h # e.q /\ regs' = [regs EXCEPT ![i].entries = Added(@, e, h).r] /\ last' = i
       \/ \E i \in 1..Len(regs), q \in Keys : regs' = [regs EXCEPT ![i].entries = Without(@, q)] /\ last' = i
       \/ \E i \in 1..Len(regs) : Len(regs) < MaxRegs /\ regs' = Append(regs, regs[i]) /\ last' = Len(regs) + 1
       \/ \E i \in 1..Len(regs) : \E x \in 0..(i - 1) : regs' = [regs EXCEPT ![i].fb = x] /\ last' = i
Files == {<<>>, <<120, 46, 99>>, <<121, 46, 99>>, <<113>>}
Texts == {<<>>, <<122>>, <<113>>}
KeysOf(i) == {e.q : e \in regs[i].entries}
RECURSIVE Reach(_)
Reach(i) == IF i = 0 THEN {} ELSE KeysOf(i) \cup Reach(regs[i].fb)
UniqueKeys == \A i \in 1..Len(regs) : \A e, f \in regs[i].entries : e.q = f.q => e = f
Complete == \A i \in 1..Len(regs) : \A e \in regs[i].entries : e.name # <<>> /\ e.desc # <<>>
Others == [][\A i \in 1..Len(regs) : i # last' => regs'[i] = regs[i]]_<<regs, ops, last>>
FoundOk ==
    LET i == last  r == regs[i].entries IN
    /\ \A e \in r : /\ Named(r, e.name) # {}
                    /\ Named(r, RLower(e.name)) # {}
                    /\ \A a \in Elems(e.aliases) : Named(r, a) # {}
                    /\ Named(r, e.cls) # {}
                    /\ (Cardinality(r) = 1 => Named(r, e.name) = {e.q} /\ Named(r, RLower(e.cls)) = {e.q})
    /\ \A f \in Files, c \in Texts :
         LET s == Suggested(r, f, <<>>, c) IN
         /\ {x[1] : x \in s} \subseteq KeysOf(i)
         /\ \A x, y \in s : x[1] = y[1] => x = y
         /\ \A x \in s : x[2] > 0
         (* the contents do not bring in what the name did not suggest, *)
         (* unless it suggested nothing                                 *)
         /\ LET p == Suggested(r, f, <<>>, <<>>) IN p # {} => {x[1] : x \in s} = {x[1] : x \in p}
         /\ LET F == FindIn(regs, i, <<>>, f, <<>>, c) IN
            /\ F \subseteq Reach(i)
            /\ (s # {} => F \subseteq {x[1] : x \in s})
            /\ (s = {} => F = FindIn(regs, regs[i].fb, <<>>, f, <<>>, c))
=============================================================================
