----------------------------- MODULE RadsStore -----------------------------
(* A RADS storage: projects and solutions on the server, files stored so     *)
(* far, component strings, downloads.                                        *)
(* world: [projects : seq of [name, version, files : seq of [path, url],     *)
(*                            manifests : seq of paths],                     *)
(*         solutions : seq of [name, version, m (see Solution), manifest]]   *)
EXTENDS Solution, Integers
V == INSTANCE Versions

(* -- versions as texts -- *)
RECURSIVE Split(_, _, _)
Split(t, cur, acc) ==
    IF t = "" THEN Append(acc, cur)
    ELSE LET ch == SubSeq(t, 1, 1)  r == SubSeq(t, 2, Len(t))
         IN IF ch = "." THEN Split(r, << >>, Append(acc, cur)) ELSE Split(r, Append(cur, Val(ch)), acc)
Newer(a, b) == V!VLess(Split(b, << >>, << >>), Split(a, << >>, << >>))
Newest(S) == CHOOSE x \in S : \A y \in S : y = x \/ Newer(x, y)
NewestFirst(s) == \A i \in 1..(Len(s) - 1) : Newer(s[i], s[i + 1])

(* -- component strings -- *)
Word == "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
In(ch, s) == \E i \in 1..Len(s) : SubSeq(s, i, i) = ch
AllIn(t, s) == \A i \in 1..Len(t) : In(SubSeq(t, i, i), s)
Starts(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
Ends(t, p) == Len(t) >= Len(p) /\ SubSeq(t, Len(t) - Len(p) + 1, Len(t)) = p
IsNumbers(t) ==
    /\ t # "" /\ AllIn(t, "0123456789.")
    /\ \A i \in 1..Len(t) : SubSeq(t, i, i) = "." => i > 1 /\ i < Len(t) /\ SubSeq(t, i + 1, i + 1) # "."
Refused == [what |-> "refused", name |-> "", version |-> ""]
(* what: refused, p, s, patch; version: "" for none, "?" for the newest one *)
Component(t) ==
    LET eq == {i \in 1..Len(t) : SubSeq(t, i, i) = "="}
        at == IF eq = {} THEN 0 ELSE CHOOSE i \in eq : \A j \in eq : i <= j
        left == IF at = 0 THEN t ELSE SubSeq(t, 1, at - 1)
        ver == IF at = 0 THEN "" ELSE IF at = Len(t) THEN "?" ELSE SubSeq(t, at + 1, Len(t))
        typ == IF Starts(left, "s:") THEN "s" ELSE IF Starts(left, "p:") THEN "p" ELSE ""
        name == IF typ = "" THEN left ELSE SubSeq(left, 3, Len(left))
        what == IF typ # "" THEN typ ELSE IF name = "patch" THEN "patch" ELSE IF Ends(name, "_sln") THEN "s" ELSE "p"
    IN IF name = "" \/ ~AllIn(name, Word) \/ ~(ver \in {"", "?", "main"} \/ IsNumbers(ver)) THEN Refused
       ELSE IF what = "patch" /\ ver = "" THEN Refused
       ELSE IF what # "patch" /\ ver \notin {"", "?", "main"} /\ Dots(ver) # 3 THEN Refused
       ELSE [what |-> what, name |-> name, version |-> ver]

(* -- what is on the server -- *)
ProjectVersions(w, name) == {p.version : p \in {p \in RangeOf(w.projects) : p.name = name}}
SolutionVersions(w, name) == {s.version : s \in {s \in RangeOf(w.solutions) : s.name = name}}
ProjectOf(w, name, version) == CHOOSE p \in RangeOf(w.projects) : p.name = name /\ p.version = version
SolutionOf(w, name, version) == CHOOSE s \in RangeOf(w.solutions) : s.name = name /\ s.version = version

(* -- what a storage holding some files has: pairs <<name, version>> -- *)
Stored(w, what, have) == {<<w.where[f][2], w.where[f][3]>> : f \in {f \in have : w.where[f][1] = what}}
StoredNames(w, what, have) == {x[1] : x \in Stored(w, what, have)}

(* -- downloads: projects <<name, version>> concerned, manifests of solutions -- *)
Wanted(w, what, name, version, sel) ==
    CASE what = "pv" -> {<<name, version>>}
      [] what = "p" -> {<<name, v>> : v \in ProjectVersions(w, name)}
      [] what = "sv" -> Selected(SolutionOf(w, name, version).m, sel)
      [] OTHER -> UNION {Selected(SolutionOf(w, name, v).m, sel) : v \in SolutionVersions(w, name)}
Solutions(w, what, name, version) ==
    CASE what \in {"p", "pv"} -> {}
      [] what = "sv" -> {version}
      [] OTHER -> SolutionVersions(w, name)
FilesOf(w, ps) == UNION {RangeOf(ProjectOf(w, p[1], p[2]).files) : p \in ps}
ManifestsOf(w, ps, name, vs) ==
    UNION {RangeOf(ProjectOf(w, p[1], p[2]).manifests) : p \in ps} \cup {SolutionOf(w, name, v).manifest : v \in vs}
(* files of the storage after a download *)
Download(w, have, what, name, version, sel) ==
    LET ps == Wanted(w, what, name, version, sel)
    IN have \cup {f.path : f \in FilesOf(w, ps)} \cup {m.path : m \in ManifestsOf(w, ps, name, Solutions(w, what, name, version))}
(* urls which may be requested, those which have to be *)
Requested(w, have, what, name, version, sel) ==
    LET ps == Wanted(w, what, name, version, sel)
    IN {f.url : f \in {f \in FilesOf(w, ps) : f.path \notin have}}
       \cup {m.url : m \in {m \in ManifestsOf(w, ps, name, Solutions(w, what, name, version)) : m.path \notin have}}
=============================================================================
