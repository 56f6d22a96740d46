---------------------------- MODULE MCUnionFind ----------------------------
(* C18, design level: the forest of parent pointers with union by size and   *)
(* path halving refines the partition `cls` generated by the unions.         *)
EXTENDS Integers, FiniteSets
CONSTANT N
E == 0..N - 1
VARIABLES parent, size, cls
vars == <<parent, size, cls>>
Init == /\ parent = [i \in E |-> i]
        /\ size = [i \in E |-> 1]
        /\ cls = [i \in E |-> {i}]

\* root(i): every node visited is pointed at its grandparent
RECURSIVE Halve(_, _)
Halve(p, j) ==
  LET q == [p EXCEPT ![j] = p[p[j]]] IN
  IF p[j] = j THEN [p |-> q, root |-> j] ELSE Halve(q, p[j])
Root(i) == /\ parent' = Halve(parent, i).p
           /\ UNCHANGED <<size, cls>>
Union(i, j) ==
  LET a == Halve(parent, i)
      b == Halve(a.p, j)
  IN IF a.root = b.root THEN parent' = b.p /\ UNCHANGED <<size, cls>>
     ELSE LET small == IF size[a.root] < size[b.root] THEN a.root ELSE b.root
              big == IF small = a.root THEN b.root ELSE a.root
          IN /\ parent' = [b.p EXCEPT ![small] = big]
             /\ size' = [size EXCEPT ![big] = size[a.root] + size[b.root]]
             /\ cls' = [k \in E |-> IF k \in cls[i] \cup cls[j] THEN cls[i] \cup cls[j] ELSE cls[k]]
Next == \E i, j \in E : Root(i) \/ Union(i, j)
Spec == Init /\ [][Next]_vars

RECURSIVE Up(_, _)
Up(i, n) == IF n = 0 THEN i ELSE Up(parent[i], n - 1)
RootOf(i) == Up(i, N)
Depth(i) == CHOOSE d \in 0..N : Up(i, d) = RootOf(i) /\ (d = 0 \/ Up(i, d - 1) # RootOf(i))
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Acyclic == \A i \in E : parent[RootOf(i)] = RootOf(i)
SameRootIffLinked == \A i, j \in E : (RootOf(i) = RootOf(j)) = (cls[i] = cls[j])
SizesRight == \A i \in E : parent[i] = i => size[i] = Cardinality(cls[i])
TreesCounted == Cardinality({i \in E : parent[i] = i}) = Cardinality({cls[i] : i \in E})
LogDepth == \A i \in E : Pow2(Depth(i)) <= Cardinality(cls[i])
=============================================================================
