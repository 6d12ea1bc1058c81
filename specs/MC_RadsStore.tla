---------------------------- MODULE MC_RadsStore ----------------------------
(* Downloads one after another, some interrupted, over small servers: what   *)
(* is stored only grows, never anything else than what is on the server;     *)
(* downloading again requests nothing; component strings denote one thing.   *)
EXTENDS RadsStore, TLC
CONSTANT Steps
VARIABLES w, have, n, last
vars == <<w, have, n, last>>
Vs == <<"0.0.0.9", "0.0.0.10", "0.0.1.0">>
Path(p, v, f) == p \o "/" \o v \o "/" \o f
Pack(p, v) == Path(p, v, "BIN")
Item(p, v, f) == [path |-> Path(p, v, f), url |-> Pack(p, v)]
Man(p, v, f) == [path |-> Path(p, v, f), url |-> "server:" \o Path(p, v, f)]
(* the second version of a project also has a file of the first one *)
Project(p, i, old) == [name |-> p, version |-> Vs[i], manifests |-> <<Man(p, Vs[i], "packagemanifest"), Man(p, Vs[i], "releasemanifest")>>,
    files |-> <<Item(p, Vs[i], "a")>> \o (IF old /\ i > 1 THEN <<[path |-> Path(p, Vs[i - 1], "a"), url |-> Pack(p, Vs[i])]>> ELSE << >>)]
Sol(s, i, req, lang) == [name |-> s, version |-> Vs[i], manifest |-> Man(s, Vs[i], "solutionmanifest"),
    m |-> [ok |-> TRUE, required |-> req, langs |-> << <<"en_us", lang>> >>]]
Worlds == {[projects |-> <<Project("x", 1, old), Project("x", 2, old), Project("y", 2, old)>>,
            solutions |-> <<Sol("x_sln", 1, << <<"x", Vs[1]>> >>, l1), Sol("x_sln", 2, << <<"x", Vs[2]>> >>, l2)>>]
           : old \in BOOLEAN, l1 \in {<< >>, << <<"y", Vs[2]>> >>}, l2 \in {<< <<"x", Vs[2]>>, <<"y", Vs[2]>> >>}}
Table(x) == LET ps == RangeOf(x.projects)  ss == RangeOf(x.solutions)
                fs == {<<Path(p, v, f), "p", p, v>> : p \in {q.name : q \in ps}, v \in RangeOf(Vs), f \in {"a", "packagemanifest", "releasemanifest"}}
                      \cup {<<s.manifest.path, "s", s.name, s.version>> : s \in ss}
            IN [f \in {y[1] : y \in fs} |-> LET y == CHOOSE y \in fs : y[1] = f IN <<y[2], y[3], y[4]>>]
Init == /\ w \in {[projects |-> x.projects, solutions |-> x.solutions, where |-> Table(x)] : x \in Worlds}
        /\ have = {} /\ n = 0 /\ last = << >>
Sels == {[kind |-> "none", list |-> << >>], [kind |-> "all", list |-> << >>], [kind |-> "one", list |-> <<"en_us">>]}
Targets == {<<"p", "x", "">>, <<"pv", "x", Vs[1]>>, <<"pv", "y", Vs[2]>>, <<"sv", "x_sln", Vs[1]>>, <<"sv", "x_sln", Vs[2]>>, <<"s", "x_sln", "">>}
Do == \E t \in Targets, sel \in Sels :
        /\ have' = Download(w, have, t[1], t[2], t[3], sel)
        /\ last' = <<t[1], t[2], t[3], sel>>
(* interrupted after some of the files *)
Stop == \E t \in Targets, sel \in Sels :
        LET all == Download(w, have, t[1], t[2], t[3], sel)
        IN /\ \E f \in all \ have : have' = have \cup {f}
           /\ last' = << >>
Next == n < Steps /\ n' = n + 1 /\ (Do \/ Stop) /\ UNCHANGED w
Known == \A f \in have : f \in DOMAIN w.where
Again == last # << >> => Requested(w, have, last[1], last[2], last[3], last[4]) = {}
                         /\ Download(w, have, last[1], last[2], last[3], last[4]) = have
Complete == last # << >> => \A p \in Wanted(w, last[1], last[2], last[3], last[4]) : p \in Stored(w, "p", have)
Lists == StoredNames(w, "p", have) \subseteq {"x", "y"} /\ StoredNames(w, "s", have) \subseteq {"x_sln"}
Grows == [][have \subseteq have']_vars
Spec == Init /\ [][Next]_vars
Strings == {"x", "x_sln", "p:x_sln", "s:x", "x=", "x_sln=", "x=0.0.0.9", "s:x=0.0.0.10", "patch", "patch=", "x=1.2", "x=1.2.3.", "x=.1.2.3", "q:x", "", "=", "x y", "p:", "x=main", "x=1.2.3.4=", "patch=9.1"}
ASSUME Component("x") = [what |-> "p", name |-> "x", version |-> ""]
ASSUME Component("s:x=") = [what |-> "s", name |-> "x", version |-> "?"]
ASSUME Component("p:x_sln=0.0.0.9") = [what |-> "p", name |-> "x_sln", version |-> "0.0.0.9"]
ASSUME {t \in Strings : Component(t).what = "refused"} = {"patch", "x=1.2", "x=1.2.3.", "x=.1.2.3", "q:x", "", "=", "x y", "p:", "x=1.2.3.4="}
ASSUME Newest({"0.0.0.9", "0.0.0.10", "0.0.0.2"}) = "0.0.0.10" /\ Newest(RangeOf(Vs)) = Vs[3]
=============================================================================
