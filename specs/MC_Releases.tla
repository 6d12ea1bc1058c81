---------------------------- MODULE MC_Releases ----------------------------
(* Update checks on two patchlines sharing a storage, at the granularity of  *)
(* the files written, with failures at every point and a clock which may go  *)
(* backwards. Checked against AfterUpdate of History.                        *)
EXTENDS History, TLC, Json
CONSTANTS N, Emit
VARIABLES adv, now, recs, mark, want, ops
vars == <<adv, now, recs, mark, want, ops>>
Pairs == {<<1, 1>>, <<1, 2>>, <<2, 2>>}
Times == 1..3
Lines == {"live", "pbe"}
(* recs[line]: set of <<timestamp, pair>>; mark[line]: latest.timestamp      *)
(* want[line]: what has been recorded according to the specification         *)
NoPair == <<0, 0>>
Ts(line) == {r[1] : r \in recs[line]}
Newest(line) == CHOOSE r \in recs[line] : \A q \in recs[line] : q[1] <= r[1]

Init == /\ adv = [x \in Lines |-> NoPair] /\ now = 1 /\ recs = [x \in Lines |-> {}]
        /\ mark = [x \in Lines |-> 0] /\ want = [x \in Lines |-> << >>] /\ ops = << >>
Log(o) == Len(ops) < N /\ ops' = Append(ops, o)

Advertise == \E x \in Lines, p \in Pairs : p # adv[x] /\ adv' = [adv EXCEPT ![x] = p] /\ Log([o |-> "advertise", line |-> x, p |-> p])
             /\ UNCHANGED <<now, recs, mark, want>>
Tick == \E t \in Times : t # now /\ now' = t /\ Log([o |-> "clock", t |-> t]) /\ UNCHANGED <<adv, recs, mark, want>>

(* fault: "request" before anything, "release" while writing release.json,   *)
(* "mark" while writing latest.timestamp                                     *)
Update == \E x \in Lines, fault \in {"none", "request", "release", "mark"} :
    /\ adv[x] # NoPair
    /\ LET new == recs[x] = {} \/ Newest(x)[2] # adv[x]
           ts == IF recs[x] = {} \/ now > Newest(x)[1] THEN now ELSE Newest(x)[1] + 1
           written == new /\ fault \in {"none", "mark"}
       IN /\ Assert(new = NeedsRecord(want[x], adv[x]), "needed")
          /\ recs' = IF written THEN [recs EXCEPT ![x] = @ \cup {<<ts, adv[x]>>}] ELSE recs
          /\ mark' = IF new /\ fault = "none" THEN [mark EXCEPT ![x] = ts] ELSE mark
          /\ want' = IF written THEN [want EXCEPT ![x] = AfterUpdate(@, adv[x])] ELSE want
    /\ Log([o |-> "update", line |-> x, fault |-> fault])
    /\ UNCHANGED <<adv, now>>
Next == Advertise \/ Tick \/ Update

(* the releases in the order of their timestamps are those recorded, in the order they were *)
Order == \A x \in Lines :
    /\ Cardinality(Ts(x)) = Cardinality(recs[x]) /\ Cardinality(recs[x]) = Len(want[x])
    /\ \A r \in recs[x] : r[2] = want[x][Cardinality({t \in Ts(x) : t <= r[1]})]
NoRepeat == \A x \in Lines : \A i \in 1..(Len(want[x]) - 1) : want[x][i] # want[x][i + 1]
(* nothing is forgotten *)
Kept == [][\A x \in Lines : recs[x] \subseteq recs'[x] /\ want[x] = SubSeq(want'[x], 1, Len(want[x]))]_vars
View == <<adv, now, recs, mark, want, Len(ops)>>
EmitOps == (Emit /\ Len(ops) = N) => PrintT("SCENARIO " \o ToJson([ops |-> ops]))
=============================================================================
