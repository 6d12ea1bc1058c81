------------------------------- MODULE MC_Cli -------------------------------
(* Commands run one after the other, as a user would, starting with some     *)
(* files. Commands are performed file by file; what they may do is described *)
(* by Cli.                                                                   *)
EXTENDS Cli, TLC, Json, Randomization
CONSTANTS MaxOps, Names, Big, Emit
VARIABLES s, init, todo, run, ops
vars == <<s, init, todo, run, ops>>

E(n, clues) == [n |-> n, p |-> <<"assets", n>>, u |-> "u-" \o n, clues |-> clues]
W == [wads |-> [w1 |-> <<E("n1", << >>), E("n2", <<"n3">>)>>, w2 |-> <<E("n2", <<"n1", "n3">>), E("n3", << >>)>>, w3 |-> <<E("n3", <<"n2", "n1">>), E("n1", << >>)>>],
      skns |-> [s1 |-> <<"x", "y">>, s2 |-> <<"x">>],
      lists |-> [l1 |-> {"n1"}, l2 |-> {}],
      comps |-> [c \in {"game=8.1", "client=8.1", "patch=8.1", "game=8.2"} |->
                 CASE c = "patch=8.1" -> {"g1", "c1"} [] c = "game=8.1" -> {"g1"} [] c = "client=8.1" -> {"c1"} [] OTHER -> {"g2"}],
      elems |-> [e \in {"g1", "g2", "c1"} |-> IF e = "c1" THEN [ext |-> "lcu", id |-> "w3"] ELSE [ext |-> "game", id |-> "w1"]]]

F(what, id) == [what |-> what, id |-> id]
Kinds == {F("wad", "w1"), F("wad", "w2"), F("skn", "s1"), F("bin", "b1"), F("list", "l1"), F("junk", "j1")}
Content(n) == IF Big THEN (IF Kind(n) # "" THEN {F("wad", "w1"), F("wad", "w2"), F("wad", "w3"), F("junk", "j1"), F("skn", "s1")}
                             ELSE IF n = "h" THEN {F("list", "l1"), F("list", "l2"), F("wad", "w1"), F("junk", "j1")}
                             ELSE IF EndsWith(n, ".skn") THEN {F("skn", "s1"), F("skn", "s2"), F("bin", "b1"), F("wad", "w2")}
                             ELSE IF EndsWith(n, ".bin") THEN {F("bin", "b1"), F("bin", "b2"), F("junk", "j1")}
                             ELSE Kinds) ELSE IF Kind(n) # "" THEN {F("wad", "w1"), F("junk", "j1")} ELSE {F("skn", "s1"), F("list", "l1")}
Inputs == {<<n>> : n \in Names} \cup (IF Big THEN {<<"d", n>> : n \in Names} ELSE {})
Outs == {<< >>, <<"d">>, <<"a">>} \cup (IF Big THEN {<<"a.wad">>, <<"d", "o">>, <<"a", "b">>, <<"a.wad", "x">>} ELSE {})
Trees == {t \in [Names -> UNION {Content(n) : n \in Names} \cup {F("none", ""), F("dir", "")}] :
          \A n \in Names : t[n] \in Content(n) \cup {F("none", ""), F("dir", "")}}
InitTree(t) ==
    LET there == {n \in Names : t[n].what \notin {"none", "dir"}}
        inner == IF Big THEN {<<"d", n>> : n \in {n \in there : Kind(n) = "game"}} ELSE {}
        files == {<<n>> : n \in there} \cup inner
    IN [files |-> [p \in files |-> t[Name(p)]],
        dirs |-> {<< >>} \cup {<<n>> : n \in {n \in Names : t[n].what = "dir"}} \cup (IF inner # {} THEN {<<"d">>} ELSE {}),
        known |-> [lcu |-> {"n2"}, game |-> {"n3"}], got |-> {}]
Init == /\ \E t \in IF Big THEN {[n \in Names |-> F("none", "")]} ELSE Trees : s = InitTree(t)
        /\ "d" \notin Names /\ init = s /\ todo = Big /\ run = [on |-> FALSE] /\ ops = << >>

C(cmd, in, out, unk, hl, flag, ins, meths, comps, arg) ==
    [cmd |-> cmd, in |-> in, out |-> out, unk |-> unk, hl |-> hl, flag |-> flag, ins |-> ins, meths |-> meths, comps |-> comps, arg |-> arg]
N == << >>
Some(S) == IF Big THEN S ELSE {CHOOSE x \in S : TRUE}
Comps == {<<"game=8.1">>, <<"client=8.1">>, <<"game=8.1", "foo">>, <<"patch=8.1", "game=8.2">>, <<"game=5.5">>, <<"client=8.1", "game=5.5">>, <<"patch=8.1">>}
CommandSets ==
    <<{C("wad-extract", i, o, u, h, f, N, N, N, "") : i \in Inputs \cup (IF Big THEN {N} ELSE {}), o \in Outs, u \in IF Big THEN {"", "yes", "only", "no", "maybe"} ELSE {"", "only"},
        h \in {N, <<"h">>} , f \in IF Big THEN BOOLEAN ELSE {FALSE}},
    {C("wad-list", i, N, "", h, FALSE, N, N, N, "") : i \in Inputs, h \in Some({N, <<"h">>})},
    {C("skn-extract", i, o, "", N, FALSE, N, N, N, "") : i \in Inputs \cup {N}, o \in Outs},
    {C("bin-dump", i, N, "", N, f, N, N, N, v) : i \in Inputs, f \in Some(BOOLEAN), v \in IF Big THEN {"", "9.1", "14.20", "main", "x"} ELSE {""}},
    {C("hashes-guess", N, N, "", N, f, ins, m, c, a) : f \in BOOLEAN, ins \in {N} \cup {<<i>> : i \in {i \in Inputs : Kind(Name(i)) # ""}}
            \cup (IF Big THEN {<<i, j>> : i, j \in {i \in Inputs : Kind(Name(i)) # ""}} ELSE {}),
            m \in {N, <<"grep">>, <<"ext", "grop">>} \cup (IF Big THEN {<<"numbers", "grep">>, <<"ext">>} ELSE {}), c \in {N, <<"client=8.1">>, <<"patch=8.1">>},
            a \in {""}},
    {C("hashes-guess", N, N, "", N, FALSE, ins, m, N, "list") : ins \in {N, <<<<"a.wad">>>>}, m \in {N, <<"grep">>, <<"ext", "grop">>}},
    {C(cmd, N, N, "", N, FALSE, N, N, c, "") : cmd \in {"download", "files"}, c \in Comps \cup {N}},
    {C("versions", N, N, "", N, FALSE, N, N, N, a) : a \in {"patch", "game", "client", "foo"}},
    {C("export", N, o, "", N, f, N, N, <<"patch=" \o a>>, a) : a \in {"8.1", "5.5"}, o \in Outs \ {N}, f \in Some(BOOLEAN)},
    {C(cmd, N, N, "", N, FALSE, N, N, N, "") : cmd \in {"help", "foo"}}>>
Commands == UNION {CommandSets[i] : i \in 1..Len(CommandSets)}
(* generated histories: commands which may run, and those with one problem   *)
Pick(k, S) == IF Cardinality(S) <= k THEN S ELSE RandomSubset(k, S)
Sampled(S) == LET some == Pick(80, {o \in Pick(1500, S) : o.in = N \/ IsFile(s, o.in) \/ Len(ops) = 3} \ {o \in S : \E i \in 1..Len(o.ins) : ~Is(s, o.ins[i], "wad") /\ Len(ops) # 3}) good == {o \in some : Problems(s, W, o) = {}}
              IN Pick(1, good) \cup Pick(2, {o \in good : Effect(s, W, o) # s})
                 \cup Pick(1, {o \in good : o.in # N /\ o.out = N /\ Effect(s, W, o) # s})
                 \cup Pick(1, {o \in good : o.cmd = "wad-extract" /\ Effect(s, W, o) # Effect(s, W, [o EXCEPT !.flag = ~@])}) \cup Pick(1, {o \in some : Cardinality(Problems(s, W, o)) = 1})
Chosen == IF Big THEN UNION {Sampled(CommandSets[i]) : i \in 1..Len(CommandSets)} ELSE Commands

(* a random tree *)
Fill == /\ todo /\ todo' = FALSE
        /\ \E t \in {[n \in Names |-> RandomElement(Content(n) \cup {F("none", ""), F("dir", "")})]} : s' = InitTree(t)
        /\ init' = s' /\ UNCHANGED <<run, ops>>
(* a user makes and removes files too *)
Make == /\ ~todo /\ ~run.on /\ Len(ops) < MaxOps
        /\ \E p \in {p \in IF Big THEN Pick(4, Inputs) ELSE Inputs : ~IsFile(s, p) /\ ~IsDir(s, p) /\ IsDir(s, Parent(p))} :
                                \E k \in Pick(IF Big THEN 1 ELSE 9, Content(Name(p)) \cup {F("dir", "")}) :
                                  /\ s' = IF k.what = "dir" THEN [s EXCEPT !.dirs = @ \cup {p}]
                                          ELSE [s EXCEPT !.files = [q \in DOMAIN @ \cup {p} |-> IF q = p THEN k ELSE @[q]]]
                                  /\ ops' = Append(ops, [o |-> "make", p |-> p, k |-> k])
        /\ UNCHANGED <<init, todo, run>>
Remove == /\ ~todo /\ ~run.on /\ Len(ops) < MaxOps
          /\ \E p \in IF Big THEN Pick(3, Inputs) ELSE Inputs : /\ IsFile(s, p)
                               /\ s' = [s EXCEPT !.files = [q \in DOMAIN @ \ {p} |-> @[q]]]
                               /\ ops' = Append(ops, [o |-> "remove", p |-> p])
          /\ UNCHANGED <<init, todo, run>>
Start == /\ ~todo /\ ~run.on /\ Len(ops) < MaxOps
         /\ \E o \in Chosen :
              /\ run' = [on |-> TRUE, o |-> o, before |-> s, problems |-> Problems(s, W, o), after |-> IF Problems(s, W, o) = {} THEN Effect(s, W, o) ELSE s]
              /\ ops' = Append(ops, [o |-> "run", c |-> o])
         /\ UNCHANGED <<s, init, todo>>
(* one change of the tree at a time *)
Step == /\ run.on
        /\ IF s = run.after THEN run' = [on |-> FALSE] /\ UNCHANGED s
           ELSE /\ UNCHANGED run
                /\ LET news == {p \in DOMAIN run.after.files : p \notin DOMAIN s.files \/ s.files[p] # run.after.files[p]}
                       olds == DOMAIN s.files \ DOMAIN run.after.files
                   IN IF olds # {} THEN s' = [s EXCEPT !.files = [q \in DOMAIN @ \ {CHOOSE p \in olds : TRUE} |-> @[q]]]
                      ELSE IF news # {} THEN LET p == CHOOSE p \in news : TRUE IN
                           s' = [s EXCEPT !.files = [q \in DOMAIN @ \cup {p} |-> IF q = p THEN run.after.files[p] ELSE @[q]], !.dirs = @ \cup Prefixes(Parent(p))]
                      ELSE s' = run.after
        /\ UNCHANGED <<init, todo, ops>>
Next == Fill \/ Make \/ Remove \/ Start \/ Step
Spec == Init /\ [][Next]_vars

(* files are in directories, and not in files *)
TreeOk == \A p \in DOMAIN s.files : \A q \in Prefixes(Parent(p)) : q \in s.dirs /\ ~IsFile(s, q)
NoFileIsDir == \A p \in DOMAIN s.files : IsFile(s, p) => p \notin s.dirs
(* a command with a problem changes nothing *)
RefusedNothing == run.on => (run.problems # {} => s = run.before)
(* commands do not touch what has been given to them, except exports which clean their directory *)
Given == {"wad", "skn", "bin", "list", "junk"}
InputsKept == run.on => (run.o.cmd # "export" => \A p \in DOMAIN run.before.files :
                            run.before.files[p].what \in Given => p \in DOMAIN s.files /\ s.files[p] = run.before.files[p])
(* what is written is at or under the given output, or beside the input under its name without extension *)
WrittenWhereTold == run.on => (run.problems = {} => \A p \in DOMAIN s.files :
                        (p \notin DOMAIN run.before.files \/ s.files[p] # run.before.files[p]) =>
                        CASE run.o.cmd = "export" -> Append(run.o.out, run.o.arg) \in Prefixes(p)
                          [] run.o.cmd \in {"wad-extract", "skn-extract"} -> Out(run.o) \in Prefixes(p)
                          [] OTHER -> FALSE)
LazyKeeps == (run.on /\ run.o.cmd = "wad-extract" /\ run.o.flag) => \A p \in DOMAIN run.before.files : s.files[p] = run.before.files[p]
KnownGrow == [][s.known.lcu \subseteq s'.known.lcu /\ s.known.game = s'.known.game]_vars
GotGrow == [][s.got \subseteq s'.got]_vars
(* an output beside the input is never the input *)
NotItself == run.on => (run.problems = {} /\ run.o.cmd \in {"wad-extract", "skn-extract"} => Out(run.o) # run.o.in)
EmitOps == (Emit /\ Len(ops) = MaxOps /\ ~run.on) => PrintT("SCENARIO " \o ToJson([ops |-> ops, files |-> {[p |-> p, k |-> init.files[p]] : p \in DOMAIN init.files}, dirs |-> init.dirs]))
View == <<s, run, Len(ops)>>
=============================================================================
