---------------------------- MODULE MC_Patcher ----------------------------
(* The storage algorithm, step by step: bundles, then files one at a time    *)
(* through the shared store; downloads of several releases, with or without  *)
(* symlinks, interrupted anywhere, and files removed behind its back.        *)
(* Checked: a file that can be read has the content of its release           *)
(* (or was damaged from outside), and a finished download made all visible.  *)
EXTENDS Patcher, TLC, Json
CONSTANTS MaxOps, Emit
VARIABLES world,   \* release -> sequence of chunk lists, one per file
          shared,  \* chunk list -> content (complete files only)
          rfile,   \* release -> file -> [kind: "no"|"copy"|"link", c]
          bundles, \* stored bundles
          op,      \* operation in progress: [rel, sym, todo, phase] (rel 0 when idle)
          ops      \* history of operations
vars == <<world, shared, rfile, bundles, op, ops>>

Rels == {1, 2}
Files == {1, 2}
Lists == {<<"a">>, <<"b">>, <<"a", "b">>, <<"b", "a">>, << >>}
BundleOf(ch) == IF ch = "a" THEN 1 ELSE 2

Idle == [rel |-> 0, sym |-> FALSE, todo |-> {}, need |-> {}]

Init == /\ world \in [Rels -> [Files -> Lists]]
        /\ \A r \in Rels : world[r][1] # << >>
        /\ shared = [l \in Lists |-> FALSE]
        /\ rfile = [r \in Rels |-> [f \in Files |-> [kind |-> "no", c |-> << >>]]]
        /\ bundles = {} /\ op = Idle /\ ops = << >>

Readable(r, f) == \/ rfile[r][f].kind = "copy"
                  \/ rfile[r][f].kind = "link" /\ shared[rfile[r][f].c]
Needed(r) == UNION {{BundleOf(ch) : ch \in RangeOf(world[r][f])} : f \in {f \in Files : ~Readable(r, f)}}

Start(r, sym) ==
    /\ op.rel = 0 /\ Len(ops) < MaxOps
    /\ op' = [rel |-> r, sym |-> sym, todo |-> Files, need |-> Needed(r) \ bundles]
    /\ ops' = Append(ops, [o |-> "download", r |-> r, sym |-> sym])
    /\ UNCHANGED <<world, shared, rfile, bundles>>

GetBundle ==
    /\ op.rel # 0 /\ op.need # {}
    /\ \E b \in op.need : bundles' = bundles \cup {b} /\ op' = [op EXCEPT !.need = @ \ {b}]
    /\ UNCHANGED <<world, shared, rfile, ops>>

(* extraction of the next file, in order; chunks must be available *)
NextFile == CHOOSE f \in op.todo : \A g \in op.todo : f <= g
CanExtract(r, f) == {BundleOf(ch) : ch \in RangeOf(world[r][f])} \subseteq bundles

Extract ==
    /\ op.rel # 0 /\ op.need = {} /\ op.todo # {}
    /\ LET f == NextFile  r == op.rel  l == world[r][f] IN
         \/ /\ Readable(r, f)
            /\ op' = [op EXCEPT !.todo = @ \ {f}]
            /\ UNCHANGED <<shared, rfile>>
         \/ /\ ~Readable(r, f) /\ CanExtract(r, f) /\ ~op.sym
            /\ rfile' = [rfile EXCEPT ![r][f] = [kind |-> "copy", c |-> l]]
            /\ op' = [op EXCEPT !.todo = @ \ {f}]
            /\ UNCHANGED shared
         \/ /\ ~Readable(r, f) /\ op.sym /\ ~shared[l] /\ CanExtract(r, f)
            /\ shared' = [shared EXCEPT ![l] = TRUE]
            /\ UNCHANGED <<rfile, op>>
         \/ /\ ~Readable(r, f) /\ op.sym /\ shared[l]
            /\ rfile' = [rfile EXCEPT ![r][f] = [kind |-> "link", c |-> l]]
            /\ op' = [op EXCEPT !.todo = @ \ {f}]
            /\ UNCHANGED shared
    /\ UNCHANGED <<world, bundles, ops>>

Finish == op.rel # 0 /\ op.need = {} /\ op.todo = {} /\ op' = Idle /\ UNCHANGED <<world, shared, rfile, bundles, ops>>

(* an interruption loses the operation, not what it did *)
Crash == op.rel # 0 /\ op' = Idle /\ ops' = Append(ops, [o |-> "crash"]) /\ Len(ops) < MaxOps /\ UNCHANGED <<world, shared, rfile, bundles>>

RmShared == /\ op.rel = 0 /\ Len(ops) < MaxOps
            /\ \E l \in Lists : shared[l] /\ shared' = [shared EXCEPT ![l] = FALSE]
            /\ ops' = Append(ops, [o |-> "rmshared"])
            /\ UNCHANGED <<world, rfile, bundles, op>>

RmBundles == /\ op.rel = 0 /\ Len(ops) < MaxOps /\ bundles # {}
             /\ bundles' = {} /\ ops' = Append(ops, [o |-> "rmbundles"])
             /\ UNCHANGED <<world, shared, rfile, op>>

Next == \/ \E r \in Rels, s \in BOOLEAN : Start(r, s)
        \/ GetBundle \/ Extract \/ Finish \/ Crash \/ RmShared \/ RmBundles

Spec == Init /\ [][Next]_vars

(* -- properties -- *)
Sane == \A r \in Rels, f \in Files : Readable(r, f) => rfile[r][f].c = world[r][f]
DoneIsComplete == [][op.rel # 0 /\ op' = Idle /\ ops' = ops => \A f \in Files : Readable(op.rel, f)]_vars
OthersKept == [][\A r \in Rels, f \in Files : Readable(r, f) /\ (op.rel = 0 \/ op.rel # r) /\ ~(\E n \in {Len(ops)} : ops' # ops /\ ops'[Len(ops')].o = "rmshared")
                   => rfile'[r][f] = rfile[r][f]]_vars
(* extraction never gets stuck for lack of a bundle *)
NoStuck == op.rel # 0 /\ op.need = {} /\ op.todo # {} => ENABLED Extract

View == <<world, shared, rfile, bundles, op, Len(ops)>>

(* scenario generation (simulation) *)
EmitHist == Emit => (Len(ops) = MaxOps /\ op.rel = 0 => PrintT("SCENARIO " \o ToJson([world |-> world, ops |-> ops])))
=============================================================================
