---------------------------- MODULE VersionCache ----------------------------
(* Patch versions stated by version files, and answers remembered for them.  *)
(* A source is the version file of an element of a release:                  *)
(*   [kind |-> "yaml"|"meta"|"exe"|"main"|"lost", lines |-> <<...>>,         *)
(*    v |-> numbers]                                                         *)
(* kind "main": on the PBE; "lost": not available anymore. Lines are those   *)
(* of a YAML file: [key, form, v].                                           *)
EXTENDS Naturals, Sequences, FiniteSets

None == [k |-> "none", v |-> << >>]
Main == [k |-> "main", v |-> << >>]
Ver(v) == [k |-> "version", v |-> SubSeq(v, 1, 2)]

(* "rel": Releases/X.Y, "relq": the same quoted, "sq", "dq": quoted version *)
VersionForms == {"rel", "relq", "rel1", "sq", "dq"}
BranchKeys == {"branch", "game-branch"}
IsBranch(line) == line.key \in BranchKeys /\ line.form \in VersionForms

StatedYaml(lines) ==
    IF \E i \in 1..Len(lines) : IsBranch(lines[i])
    THEN LET i == CHOOSE i \in 1..Len(lines) : IsBranch(lines[i]) /\ \A j \in 1..(i-1) : ~IsBranch(lines[j])
         IN Ver(lines[i].v)
    ELSE None

Stated(src) == CASE src.kind = "main" -> Main
                 [] src.kind = "yaml" -> StatedYaml(src.lines)
                 [] src.kind \in {"meta", "exe"} -> IF Len(src.v) >= 2 THEN Ver(src.v) ELSE None
                 [] src.kind = "lost" -> None

(* Memory: set of the sources whose version has been answered *)
Knows(mem, src, p) == p \in mem \/ src.kind = "main"

(* An answer: [status, v (as above), fetched: number of requests], asked     *)
(* while fetching fails or not                                               *)
Answers(mem, srcs, p, failing) ==
    LET src == srcs[p]
        right == [status |-> "ok", v |-> Stated(src), fetched |-> FALSE]
    IN IF Knows(mem, src, p) THEN {right}
       ELSE IF failing THEN {[status |-> "raised", v |-> None, fetched |-> TRUE]}
       ELSE {[right EXCEPT !.fetched = TRUE]}

Remember(mem, p, answer) == IF answer.status = "ok" /\ answer.v.k = "version" THEN mem \cup {p} ELSE mem
=============================================================================
