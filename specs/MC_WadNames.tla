---------------------------- MODULE MC_WadNames ----------------------------
(* Extractions of an archive of up to N entries into a directory: names are  *)
(* distinct and never conflict with directories; an extraction gives exactly *)
(* the selected files; a lazy one only adds files.                           *)
EXTENDS WadNames, TLC, Json
CONSTANTS N, MaxOps, Emit
VARIABLES es, tree, last, ops
vars == <<es, tree, last, ops>>
Pool == <<"a", "a/b", "a/b/c.txt", "a.x", "a/.h", "A/b">>
Heads == <<<< >>, <<80, 82, 79, 80>>, <<1, 2>>, <<114, 51, 100, 50, 1>>>>
Hash(k) == <<"000000000000000a", "00000000000000b1", "ffffffffffffffff", "8000000000000000">>[k]
Init == es = << >> /\ tree = {} /\ last = [k |-> "", old |-> {}, sel |-> [unknown |-> "", patterns |-> << >>], lazy |-> FALSE] /\ ops = << >>
Add == /\ ops = << >> /\ Len(es) < N
       /\ \E i \in 0..Len(Pool), h \in 1..Len(Heads), r \in BOOLEAN, j \in BOOLEAN :
            /\ (h # 3 => ~j) /\ (h # 1 => r) /\ (i > 0 => \A e \in RangeOf(es) : e.path # Pool[i])
            /\ es' = Append(es, [h |-> Hash(Len(es) + 1), path |-> IF i = 0 THEN "" ELSE Pool[i], head |-> Heads[h], json |-> j, readable |-> r, tok |-> Hash(Len(es) + 1)])
       /\ UNCHANGED <<tree, last, ops>>
Sels == {[unknown |-> u, patterns |-> p] : u \in {"yes", "only", "no"}, p \in {<< >>, <<"a*">>, <<"*.x", "?">>}}
Names(t) == {x[1] : x \in t}
Extract == /\ es # << >> /\ Len(ops) < MaxOps
           /\ \E sel \in Sels, lazy \in BOOLEAN :
                LET new == {<<FullName(e), e.tok>> : e \in Extracted(es, sel)}
                    keep == IF lazy THEN tree ELSE {x \in tree : x[1] \notin Names(new)}
                IN /\ tree' = keep \cup {x \in new : x[1] \notin Names(keep)}
                   /\ last' = [k |-> "extract", old |-> tree, sel |-> sel, lazy |-> lazy]
                   /\ ops' = Append(ops, [o |-> "extract", sel |-> sel, lazy |-> lazy, name |-> ""])
           /\ UNCHANGED es
Disturb == /\ tree # {} /\ Len(ops) < MaxOps
           /\ \E x \in tree, gone \in BOOLEAN :
                /\ tree' = (tree \ {x}) \cup (IF gone THEN {} ELSE {<<x[1], "junk">>})
                /\ ops' = Append(ops, [o |-> IF gone THEN "remove" ELSE "junk", sel |-> last.sel, lazy |-> FALSE, name |-> x[1]])
                /\ last' = [last EXCEPT !.k = "disturb"]
           /\ UNCHANGED es
Next == Add \/ Extract \/ Disturb
All == [unknown |-> "yes", patterns |-> << >>]
Injective == \A e, f \in Extracted(es, All) : e # f => FullName(e) # FullName(f)
NoConflict == \A e, f \in Extracted(es, All) : ~StartsWith(FullName(f), FullName(e) \o "/")
Exact == last.k = "extract" =>
    LET new == {<<FullName(e), e.tok>> : e \in Extracted(es, last.sel)}
    IN IF last.lazy THEN last.old \subseteq tree /\ Names(tree) = Names(last.old) \cup Names(new) /\ tree \ last.old \subseteq new
       ELSE new \subseteq tree /\ tree \ new \subseteq last.old
EmitOps == (Emit /\ Len(ops) = MaxOps) => PrintT("SCENARIO " \o ToJson([es |-> es, ops |-> ops]))
=============================================================================
