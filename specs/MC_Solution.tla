---------------------------- MODULE MC_Solution ----------------------------
(* All manifests over P projects and two languages, intact or with a line    *)
(* replaced or the end cut: writing then parsing gives the manifest back,    *)
(* selections are consistent, damages of the structure are detected.         *)
EXTENDS Solution, TLC, Json
CONSTANTS P, Emit
VARIABLES ps, req, langs, lines, damage, done
vars == <<ps, req, langs, lines, damage, done>>
Names == <<"league_client", "league_client_en_us", "league_client_de_de", "shared">>
Known == {"en_us", "de_de", "fr_fr"}
Vers == <<"0.0.0.9", "0.0.1.0", "0.0.0.10", "0.0.2.3">>
Init == ps = << >> /\ req = {} /\ langs = << >> /\ lines = << >> /\ damage = <<0, "">> /\ done = FALSE
AddProject == /\ ~done /\ lines = << >> /\ Len(ps) < P /\ langs = << >>
              /\ LET i == Len(ps) + 1 IN ps' = Append(ps, <<Names[i], Vers[i]>>) /\ req' \in {req, req \cup {i}}
              /\ UNCHANGED <<langs, lines, damage, done>>
AddLang == /\ ~done /\ lines = << >> /\ Len(langs) < 2 /\ Len(ps) > 0
           /\ \E x \in {"en_us", "de_de"}, S \in SUBSET (1..Len(ps)) :
                /\ \A i \in 1..Len(langs) : langs[i][1] # x
                /\ langs' = Append(langs, <<x, S>>)
           /\ UNCHANGED <<ps, req, lines, damage, done>>
Txt(n) == Digits[n + 1]
RECURSIVE Pick(_, _)
Pick(S, i) == IF i > Len(ps) THEN << >> ELSE (IF i \in S THEN <<ps[i]>> ELSE << >>) \o Pick(S, i + 1)
RECURSIVE ProjLines(_)
ProjLines(i) == IF i > Len(ps) THEN << >> ELSE <<ps[i][1], ps[i][2], IF i \in req THEN "0" ELSE "10", "0">> \o ProjLines(i + 1)
RECURSIVE LangLines(_)
LangLines(i) == IF i > Len(langs) THEN << >>
                ELSE LET q == Pick(langs[i][2], 1) IN <<langs[i][1], "0", Txt(Len(q))>> \o [k \in 1..Len(q) |-> q[k][1]] \o LangLines(i + 1)
Write == /\ ~done /\ lines = << >> /\ ps # << >>
         /\ lines' = <<"RADS Solution Manifest", "1.0.0.0", "league_client_sln", "0.0.0.5", Txt(Len(ps))>> \o ProjLines(1) \o <<Txt(Len(langs))>> \o LangLines(1)
         /\ UNCHANGED <<ps, req, langs, damage, done>>
Harm == /\ lines # << >> /\ ~done /\ done' = TRUE
        /\ \/ UNCHANGED <<lines, damage>>
           \/ \E i \in 1..Len(lines) : lines' = SubSeq(lines, 1, i - 1) /\ damage' = <<i, "cut">>
           \/ \E i \in 1..Len(lines) : lines' = [lines EXCEPT ![i] = "x"] /\ damage' = <<i, "x">>
        /\ UNCHANGED <<ps, req, langs>>
Next == AddProject \/ AddLang \/ Write \/ Harm
M == Parse(lines, "league_client_sln", "0.0.0.5", Known)
All == [kind |-> "all", list |-> << >>]
None == [kind |-> "none", list |-> << >>]
RoundTrip == (lines # << >> /\ damage[1] = 0) =>
    /\ M.ok /\ M.required = Pick(req, 1)
    /\ Len(M.langs) = Len(langs) /\ \A i \in 1..Len(langs) : M.langs[i] = <<langs[i][1], Pick(langs[i][2], 1)>>
    /\ Selected(M, None) \subseteq Selected(M, All) /\ Selected(M, All) \subseteq RangeOf(ps)
    /\ \A i \in 1..Len(langs) : Selected(M, [kind |-> "one", list |-> <<langs[i][1]>>]) \subseteq Selected(M, All)
(* a shorter manifest or a damaged number or header is never accepted        *)
Detected == /\ damage[2] = "cut" => ~M.ok
            /\ (damage[2] = "x" /\ damage[1] <= 5) => ~M.ok
EmitManifest == (Emit /\ done) => PrintT("SCENARIO " \o ToJson([lines |-> lines, langs |-> [i \in 1..Len(langs) |-> langs[i][1]], damage |-> damage]))
=============================================================================
