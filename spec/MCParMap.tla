------------------------------ MODULE MCParMap ------------------------------
(* C37 (and C04, C07, C12, C32, C38, C01), design level: the parallel forms. *)
(* The output is split into tasks (single samples, rows, or chunks, by the   *)
(* scheduler's choice); each worker takes a task, computes its samples one   *)
(* after the other from the unchanging input and writes them.  Every         *)
(* interleaving gives the sequential result, and no sample is written twice. *)
EXTENDS Integers, FiniteSets
CONSTANTS N, Workers
VARIABLES tasks, held, out, writes
vars == <<tasks, held, out, writes>>
F(i) == 10 * i + 1
\* splits of 0..N - 1 into consecutive chunks
Cuts == SUBSET (1..N - 1)
Chunk(c, i) == {j \in 0..N - 1 : \A k \in c : (j < k) = (i < k)}
Init == /\ \E c \in Cuts : tasks = {Chunk(c, i) : i \in 0..N - 1}
        /\ held = [w \in Workers |-> {}]
        /\ out = [i \in 0..N - 1 |-> -1]
        /\ writes = [i \in 0..N - 1 |-> 0]
Take(w) == /\ held[w] = {}
           /\ \E t \in tasks : tasks' = tasks \ {t} /\ held' = [held EXCEPT ![w] = t]
           /\ UNCHANGED <<out, writes>>
\* a worker may hand half of what it holds to another (work stealing)
Steal(w, v) == /\ held[w] = {} /\ Cardinality(held[v]) > 1
               /\ LET m == CHOOSE i \in held[v] : \A j \in held[v] : j <= i IN
                  held' = [held EXCEPT ![w] = {m}, ![v] = @ \ {m}]
               /\ UNCHANGED <<tasks, out, writes>>
Write(w) == /\ held[w] # {}
            /\ LET i == CHOOSE i \in held[w] : \A j \in held[w] : i <= j IN
               /\ out' = [out EXCEPT ![i] = F(i)]
               /\ writes' = [writes EXCEPT ![i] = @ + 1]
               /\ held' = [held EXCEPT ![w] = @ \ {i}]
            /\ UNCHANGED tasks
Next == \E w \in Workers : Take(w) \/ Write(w) \/ \E v \in Workers : Steal(w, v)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Disjoint == \A v, w \in Workers : v # w => held[v] \cap held[w] = {}
Once == \A i \in 0..N - 1 : writes[i] <= 1 /\ out[i] \in {-1, F(i)} /\ (out[i] = -1) = (writes[i] = 0)
Finished == tasks = {} /\ \A w \in Workers : held[w] = {}
Sequential == Finished => out = [i \in 0..N - 1 |-> F(i)]
Ends == <>Finished
=============================================================================
