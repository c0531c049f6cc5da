------------------------------ MODULE MC_Treap ------------------------------
(* Design of the treap: insertion by splitting, with arbitrary priorities        *)
(* (including equal ones), keeps a search tree with the inserted keys, exact      *)
(* sizes at every node and the heap order.  A tree is <<>> or                    *)
(* <<key, priority, size, left, right>>.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Prios, Depth, Emitting
VARIABLES tree, keys
vars == <<tree, keys>>
Size(t) == IF t = <<>> THEN 0 ELSE t[3]
Mk(k, p, l, r) == <<k, p, Size(l) + Size(r) + 1, l, r>>
RECURSIVE Split(_, _)
Split(t, k) ==
  IF t = <<>> THEN <<<<>>, <<>>>>
  ELSE IF k = t[1] THEN <<t[4], t[5]>>
  ELSE IF k < t[1] THEN LET s == Split(t[4], k) IN <<s[1], Mk(t[1], t[2], s[2], t[5])>>
  ELSE LET s == Split(t[5], k) IN <<Mk(t[1], t[2], t[4], s[1]), s[2]>>
RECURSIVE Insert(_, _, _)
Insert(t, k, p) ==
  IF t = <<>> THEN Mk(k, p, <<>>, <<>>)
  ELSE IF t[1] = k THEN t
  ELSE IF t[2] > p THEN IF t[1] > k THEN Mk(t[1], t[2], Insert(t[4], k, p), t[5]) ELSE Mk(t[1], t[2], t[4], Insert(t[5], k, p))
  ELSE LET s == Split(t, k) IN Mk(k, p, s[1], s[2])
RECURSIVE KeysOf(_)
KeysOf(t) == IF t = <<>> THEN {} ELSE {t[1]} \cup KeysOf(t[4]) \cup KeysOf(t[5])
RECURSIVE Good(_)
Good(t) == t = <<>> \/ /\ \A x \in KeysOf(t[4]) : x < t[1]
                       /\ \A x \in KeysOf(t[5]) : x > t[1]
                       /\ t[3] = Cardinality(KeysOf(t))
                       /\ \A c \in {t[4], t[5]} : c = <<>> \/ c[2] <= t[2]
                       /\ Good(t[4]) /\ Good(t[5])
Init == tree = <<>> /\ keys = <<>>
Next == /\ Len(keys) < Depth
        /\ \E k \in 1..K, p \in 1..Prios : tree' = Insert(tree, k, p) /\ keys' = Append(keys, k)
Spec == Init /\ [][Next]_vars
IsSet == KeysOf(tree) = {keys[i] : i \in 1..Len(keys)}
Shape == Good(tree)
Emit == (Emitting /\ Len(keys) = Depth) => PrintT("B " \o ToJson([keys |-> keys]))
=============================================================================
