----------------------------- MODULE MC_Registry -----------------------------
(* C08, C09: a manager keeps its variables in an ordered tree searched by    *)
(* comparing ids; comparing two ids of one name but different components     *)
(* raises an error.  Modelled as a binary search tree (any insertion order). *)
(* It behaves as the abstract map of QkSystem: an id is found exactly when   *)
(* its key was created, and rejected exactly when it collides.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Names, Bases, Comps, MaxVars
Ids == [name : Names, basis : Bases, comps : Comps]
VARIABLES tree, made, moved, content
\* tree: path (sequence of 0/1) -> id;  made: abstract set of created ids;  content: path -> token
Lt(a, b) == a.name < b.name \/ (a.name = b.name /\ a.basis < b.basis)
Mismatch(a, b) == a.name = b.name /\ a.comps # b.comps
Key(i) == <<i.name, i.basis>>
RECURSIVE Search(_, _, _)
\* outcome: <<"found", path>>, <<"absent", path to insert at>> or <<"error", path>>
Search(t, i, p) == IF p \notin DOMAIN t THEN <<"absent", p>>
                   ELSE IF Mismatch(i, t[p]) THEN <<"error", p>>
                   ELSE IF Lt(i, t[p]) THEN Search(t, i, Append(p, 0))
                   ELSE IF Lt(t[p], i) THEN Search(t, i, Append(p, 1))
                   ELSE <<"found", p>>
Init == tree = <<>> /\ made = {} /\ moved = FALSE /\ content = <<>>
Collides(i) == \E j \in made : j.name = i.name /\ j.comps # i.comps
Out(i) == LET r == Search(tree, i, <<>>) IN
  CASE r[1] = "absent" /\ Cardinality(made) < MaxVars ->
         /\ tree' = (r[2] :> i) @@ tree /\ made' = made \cup {i} /\ content' = (r[2] :> 0) @@ content /\ UNCHANGED moved
    [] OTHER -> UNCHANGED <<tree, made, content, moved>>
Write(i) == LET r == Search(tree, i, <<>>) IN
  /\ r[1] = "found" /\ content' = [content EXCEPT ![r[2]] = 1 - @] /\ UNCHANGED <<tree, made, moved>>
Next == \E i \in Ids : Out(i) \/ Write(i)
Agrees == \A i \in Ids : LET r == Search(tree, i, <<>>) IN
            /\ (r[1] = "error") = Collides(i)
            /\ (r[1] = "found") = (i \in made)
OneStorage == \A p, q \in DOMAIN tree : Key(tree[p]) = Key(tree[q]) => p = q
Consistent == \A i, j \in made : i.name = j.name => i.comps = j.comps
\* the order on consistent ids is a strict total order (C09)
Total == \A i, j \in made : (i # j) = (Lt(i, j) \/ Lt(j, i)) /\ ~(Lt(i, j) /\ Lt(j, i))
StaysPut == [][\A p \in DOMAIN tree : p \in DOMAIN tree' /\ tree'[p] = tree[p]]_<<tree, made, content, moved>>
OthersKept == [][Cardinality({p \in DOMAIN content : content'[p] # content[p]}) <= 1]_<<tree, made, content, moved>>
=============================================================================
