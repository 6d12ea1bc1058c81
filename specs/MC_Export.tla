----------------------------- MODULE MC_Export -----------------------------
(* Exports of successive patches in one directory each, with links to the    *)
(* previous one: what is visible in each directory, whatever happened before.*)
(* tree[p]: [files: set of <<path, content>>, links: set of                  *)
(* <<path, patch, path>> (link to a path of the directory of a patch)]       *)
EXTENDS Reduce, TLC, Json

CONSTANTS N,            (* patches *)
          U,            (* paths of files *)
          K,            (* contents 1..K *)
          MaxOps, Gen,
          Relink        (* existing links are updated *)
U2 == {<<"a", "x">>, <<"b">>}
U3 == {<<"a", "x">>, <<"a", "y">>, <<"b">>}
U4 == U3 \cup {<<"a", "c", "z">>}
VARIABLES src, tree, step, hist, good

vars == <<src, tree, step, hist, good>>
Patches == 1..N
Absent == 0
Stray == 99

PathsOf(s) == {x \in U : s[x] # Absent}
Under(p, d) == IsPrefix(d, p)
Suffix(p, d) == SubSeq(p, Len(d) + 1, Len(p))

(* target of a path of the directory of a patch: where the data really is    *)
RECURSIVE Real(_, _, _, _)
Real(T, q, x, n) ==
    LET ls == {l \in T[q].links : Under(x, l[1])} IN
    IF ls = {} \/ n = 0 THEN <<q, x>> ELSE LET l == CHOOSE k \in ls : TRUE IN Real(T, l[2], l[3] \o Suffix(x, l[1]), n - 1)
(* content visible at a path, Absent if none                                 *)
Visible(T, q, x) == LET r == Real(T, q, x, N + 2) fs == {f \in T[r[1]].files : f[1] = r[2]} IN IF fs = {} THEN Absent ELSE (CHOOSE f \in fs : TRUE)[2]
(* everything visible in a directory                                         *)
RECURSIVE Everything(_, _, _, _)
Everything(T, q, d, n) ==   \* paths below directory d of q, relative to d
    IF n = 0 THEN {}
    ELSE {Suffix(f[1], d) : f \in {g \in T[q].files : Under(g[1], d)}}
         \cup UNION {LET r == Real(T, q, l[1], N + 2) IN {Suffix(l[1], d) \o y : y \in Everything(T, r[1], r[2], n - 1)} : l \in {k \in T[q].links : Under(k[1], d)}}
View(T, q) == {<<x, Visible(T, q, x)>> : x \in Everything(T, q, << >>, N + 2)}
Full(s) == {<<x, s[x]>> : x \in PathsOf(s)}

(* -- export of p: with links to q (0: none), only to the files of done if interrupted *)
Export(T, p, q, lazy, partial, done) ==
    LET new == PathsOf(src[p])
        same == IF q = 0 THEN {} ELSE {x \in new : src[q][x] = src[p][x]}
        changed == new \ same
        links == IF q = 0 THEN {} ELSE Reduced(same, PathsOf(src[q]), changed)
        clean == [files |-> {f \in T[p].files : f[1] \in changed},
                  links |-> {l \in T[p].links : l[1] \in links}]
        written == {<<x, src[p][x]>> : x \in {y \in changed : (partial => y \in done) /\ ~(lazy /\ \E f \in clean.files : f[1] = y)}}
        files == written \cup {f \in clean.files : ~\E w \in written : w[1] = f[1]}
        T1 == [T EXCEPT ![p] = [files |-> files, links |-> clean.links]]
        made == {LET r == Real(T1, q, x, N + 2) IN <<x, r[1], r[2]>> : x \in {y \in links : Relink \/ ~\E l \in clean.links : l[1] = y}}
        keptl == {l \in clean.links : ~\E m \in made : m[1] = l[1]}
    IN IF partial THEN T1 ELSE [T1 EXCEPT ![p].links = keptl \cup made]

Do(o, T) == tree' = T /\ step' = step + 1 /\ hist' = IF Gen THEN Append(hist, o) ELSE hist
Exports ==
    \E p \in Patches, q \in 0..(N - 1), lazy \in BOOLEAN, partial \in BOOLEAN : \E done \in SUBSET PathsOf(src[p]) :
      /\ q < p /\ (q # 0 => tree[q] # [files |-> {}, links |-> {}])
      /\ (partial => ~lazy) /\ (~partial => done = {})
      /\ LET T == Export(tree, p, q, lazy, partial, done)
             expects == ~partial /\ ~lazy /\ (q = 0 \/ View(tree, q) = Full(src[q]))
         IN /\ Do([o |-> "export", p |-> p, q |-> q, lazy |-> lazy, partial |-> partial], T)
            /\ good' = (expects => /\ View(T, p) = Full(src[p])
                                   /\ \A x \in PathsOf(src[p]) : (q = 0 \/ src[q][x] # src[p][x]) => <<x, src[p][x]>> \in T[p].files
                                   /\ \A l \in T[p].links : l[2] # p)
      /\ UNCHANGED src
(* the storage gets a new content of a patch *)
Change ==
    \E p \in Patches, x \in U, v \in 0..K :
      /\ src[p][x] # v
      /\ src' = [src EXCEPT ![p][x] = v]
      /\ PathsOf(src'[p]) # {}
      /\ Do([o |-> "change", p |-> p, x |-> x, v |-> v], tree)
      /\ good' = TRUE
(* files of a directory are removed, overwritten, added, replaced by links *)
Disturb ==
    \E p \in Patches, x \in U, how \in {"remove", "overwrite", "link"} :
      /\ tree[p].files \cup tree[p].links # {}
      /\ ~\E l \in tree[p].links : Under(x, l[1]) /\ x # l[1]
      /\ LET others == {f \in tree[p].files : f[1] # x}
             nolink == {l \in tree[p].links : l[1] # x}
         IN CASE how = "remove" -> Do([o |-> "disturb", p |-> p, x |-> x, how |-> how], [tree EXCEPT ![p] = [files |-> others, links |-> nolink]])
              [] how = "overwrite" -> Do([o |-> "disturb", p |-> p, x |-> x, how |-> how], [tree EXCEPT ![p] = [files |-> others \cup {<<x, Stray>>}, links |-> nolink]])
              [] how = "link" -> /\ p > 1
                                 /\ Do([o |-> "disturb", p |-> p, x |-> x, how |-> how], [tree EXCEPT ![p] = [files |-> others, links |-> nolink \cup {<<x, 1, x>>}]])
      /\ UNCHANGED src
      /\ good' = TRUE

Next == step < MaxOps /\ (Exports \/ Change \/ Disturb)
Contents == {s \in [U -> 0..K] : \E x \in U : s[x] # 0}
Setup ==
    /\ Len(hist) < N
    /\ \E s \in Contents : src' = [src EXCEPT ![Len(hist) + 1] = s] /\ hist' = Append(hist, [o |-> "setup", p |-> Len(hist) + 1, s |-> {<<x, s[x]>> : x \in PathsOf(s)}])
    /\ UNCHANGED <<tree, step, good>>
GenNext == Setup \/ (Len(hist) >= N /\ Next)
Init == /\ src \in [Patches -> Contents]
        /\ tree = [p \in Patches |-> [files |-> {}, links |-> {}]]
        /\ step = 0 /\ hist = << >> /\ good = TRUE
(* contents chosen first, for simulations *)
GenInit == /\ src = [p \in Patches |-> [x \in U |-> 1]]
           /\ tree = [p \in Patches |-> [files |-> {}, links |-> {}]]
           /\ step = 0 /\ hist = << >> /\ good = TRUE
Correct == good
(* links never loop, nor point outside *)
LinksResolve == \A p \in Patches : \A l \in tree[p].links : ~\E k \in tree[Real(tree, p, l[1], N + 2)[1]].links : Under(Real(tree, p, l[1], N + 2)[2], k[1])
Emit == ~(Gen /\ step = MaxOps) \/ PrintT("SCENARIO " \o ToJson([h |-> hist]))
=============================================================================
