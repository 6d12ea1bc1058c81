-------------------------- MODULE MC_VersionCache --------------------------
(* A store remembering one version per key (patchline, release, element),    *)
(* queried by successive processes; the CDN may fail or lose its files.      *)
EXTENDS VersionCache, TLC, Json
CONSTANTS Lines, Rels, Elems, Pool, MaxLines, MaxOps, Emit
VARIABLES todo, srcs, disk, answered, gone, ops, last
vars == <<todo, srcs, disk, answered, gone, ops, last>>

Keys == Lines \X Rels \X Elems
Vs == IF Pool = "large" THEN {<<9, 1>>, <<10, 12, 3>>, <<9, 13, 0, 1>>} ELSE {<<9, 1>>, <<10, 12, 3>>}
LineKeys == {"branch", "game-branch", "branchx", "other"}
LineForms == IF Pool = "large" THEN {"rel", "relq", "rel1", "sq", "dq", "word"} ELSE {"rel", "sq", "word"}
OneLine == {[key |-> k, form |-> f, v |-> v] : k \in LineKeys, f \in LineForms, v \in Vs}
Simple == {[key |-> k, form |-> "rel", v |-> v] : k \in {"branch", "other"}, v \in Vs}

Src(kind, lines, v) == [kind |-> kind, lines |-> lines, v |-> v]
YamlDocs == IF MaxLines = 1 THEN {<<x>> : x \in Simple}
            ELSE UNION {[1..n -> OneLine] : n \in 0..MaxLines}

Init == todo = Keys /\ srcs = << >> /\ disk = << >> /\ answered = << >> /\ gone = {} /\ ops = << >> /\ last = << >>

Choose ==
    /\ todo # {}
    /\ LET k == CHOOSE k \in todo : TRUE IN
         /\ todo' = todo \ {k}
         /\ \E s \in IF k[1] = "pbe" THEN {Src("main", << >>, << >>)}
                     ELSE IF Emit THEN {Src(IF k[3] = "client" THEN "yaml" ELSE "meta", RandomElement(YamlDocs), RandomElement(Vs))}
                     ELSE IF k[3] = "client" THEN {Src("yaml", d, << >>) : d \in YamlDocs} ELSE {Src("meta", << >>, v) : v \in Vs} :
              srcs' = srcs @@ (k :> s)
    /\ UNCHANGED <<disk, answered, gone, ops, last>>

(* What the implementation does: it looks at the disk first *)
Query == \E k \in Keys, failing \in BOOLEAN, how \in IF Emit THEN {"elem", "process"} ELSE {"elem"} :
    /\ todo = {} /\ (Emit => Len(ops) < MaxOps)
    /\ LET src == srcs[k]
           fail == failing \/ k \in gone
           a == IF src.kind = "main" THEN [status |-> "ok", v |-> Main, fetched |-> FALSE]
                ELSE IF k \in DOMAIN disk THEN [status |-> "ok", v |-> disk[k], fetched |-> FALSE]
                ELSE IF fail THEN [status |-> "raised", v |-> None, fetched |-> TRUE]
                ELSE [status |-> "ok", v |-> Stated(src), fetched |-> TRUE]
       IN /\ disk' = IF a.status = "ok" /\ a.v.k = "version" /\ k \notin DOMAIN disk THEN disk @@ (k :> a.v) ELSE disk
          /\ Assert(a \in Answers(DOMAIN disk, srcs, k, fail), "answer")
          /\ DOMAIN disk' = Remember(DOMAIN disk, k, a)
          /\ last' = <<k, a, k \in DOMAIN answered /\ answered[k].k # "none">>
          /\ answered' = IF a.status = "ok" /\ k \notin DOMAIN answered THEN answered @@ (k :> a.v) ELSE answered
    /\ ops' = IF Emit THEN Append(ops, [o |-> "query", k |-> k, fail |-> failing, how |-> how]) ELSE ops
    /\ UNCHANGED <<todo, srcs, gone>>

Lose == \E k \in Keys : /\ todo = {} /\ (Emit => Len(ops) < MaxOps) /\ k \notin gone /\ k[1] # "pbe"
                        /\ gone' = gone \cup {k} /\ ops' = IF Emit THEN Append(ops, [o |-> "lose", k |-> k, fail |-> TRUE, how |-> ""]) ELSE ops
                        /\ last' = << >>
                        /\ UNCHANGED <<todo, srcs, disk, answered>>
Next == Choose \/ Query \/ Lose

(* Properties *)
Right == last # << >> => (last[2].status = "ok" => last[2].v = Stated(srcs[last[1]]))
Stable == last # << >> => (last[2].status = "ok" => answered[last[1]] = last[2].v)
NoRefetch == last # << >> => (last[2].fetched => ~last[3])
Unmixed == \A k \in DOMAIN disk : disk[k] = Stated(srcs[k])
(* Other lines don't matter, only the first branch does *)
FirstOnly == \A k \in DOMAIN srcs : srcs[k].kind = "yaml" =>
    LET ls == srcs[k].lines IN
    /\ StatedYaml(SelectSeq(ls, IsBranch)) = StatedYaml(ls)
    /\ \A x \in Simple : StatedYaml(ls) # None => StatedYaml(Append(ls, x)) = StatedYaml(ls)
EmitHist == Emit => (Len(ops) = MaxOps => PrintT("SCENARIO " \o ToJson([srcs |-> {[key |-> k, src |-> srcs[k]] : k \in Keys}, ops |-> ops])))
=============================================================================
