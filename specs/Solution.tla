------------------------------ MODULE Solution ------------------------------
(* RADS solution manifests: their text, and the projects they select.        *)
(* Parsed: [ok, required : seq of projects, langs : lang -> seq of projects] *)
(* with projects <<name, version>>.                                          *)
EXTENDS Naturals, Sequences, FiniteSets

RangeOf(s) == {s[i] : i \in 1..Len(s)}
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(ch) == ch \in RangeOf(Digits)
Val(ch) == (CHOOSE i \in 1..10 : Digits[i] = ch) - 1
RECURSIVE Num(_, _)
Num(t, acc) == IF t = "" THEN acc ELSE Num(SubSeq(t, 2, Len(t)), acc * 10 + Val(SubSeq(t, 1, 1)))
IsNumber(t) == t # "" /\ \A i \in 1..Len(t) : IsDigit(SubSeq(t, i, i))
RECURSIVE Dots(_)
Dots(t) == IF t = "" THEN 0 ELSE (IF SubSeq(t, 1, 1) = "." THEN 1 ELSE 0) + Dots(SubSeq(t, 2, Len(t)))
IsVersion(t) == /\ Dots(t) = 3 /\ \A i \in 1..Len(t) : IsDigit(SubSeq(t, i, i)) \/ SubSeq(t, i, i) = "."
                /\ \A i \in 1..Len(t) : SubSeq(t, i, i) = "." => i > 1 /\ i < Len(t) /\ SubSeq(t, i + 1, i + 1) # "."

Bad == [ok |-> FALSE, required |-> << >>, langs |-> << >>]

(* projects from line i, n of them: <<ok, projects, required, next line>>    *)
RECURSIVE Projects(_, _, _, _, _)
Projects(lines, i, n, ps, req) ==
    IF n = 0 THEN <<TRUE, ps, req, i>>
    ELSE IF i + 3 > Len(lines) THEN <<FALSE, ps, req, i>>
    ELSE IF ~IsVersion(lines[i + 1]) \/ lines[i + 2] \notin {"0", "10"} \/ lines[i + 3] # "0" THEN <<FALSE, ps, req, i>>
    ELSE Projects(lines, i + 4, n - 1, Append(ps, <<lines[i], lines[i + 1]>>),
                  IF lines[i + 2] = "0" THEN Append(req, <<lines[i], lines[i + 1]>>) ELSE req)

RECURSIVE Langs(_, _, _, _, _, _)
Langs(lines, i, n, ps, known, acc) ==
    IF n = 0 THEN <<TRUE, acc>>
    ELSE IF i + 2 > Len(lines) \/ ~(lines[i] \in known) \/ lines[i + 1] # "0" \/ ~IsNumber(lines[i + 2]) THEN <<FALSE, acc>>
    ELSE LET d == Num(lines[i + 2], 0) IN
         IF i + 2 + d > Len(lines) THEN <<FALSE, acc>>
         ELSE LET names == SubSeq(lines, i + 3, i + 2 + d)
                  proj(n1) == ps[CHOOSE k \in 1..Len(ps) : ps[k][1] = n1]
              IN IF \E k \in 1..d : \A j \in 1..Len(ps) : ps[j][1] # names[k] THEN <<FALSE, acc>>
                 ELSE Langs(lines, i + 3 + d, n - 1, ps, known, Append(acc, <<lines[i], [k \in 1..d |-> proj(names[k])]>>))

Parse(lines, name, version, known) ==
    IF Len(lines) < 5 THEN Bad
    ELSE IF lines[1] # "RADS Solution Manifest" \/ lines[2] # "1.0.0.0" \/ lines[3] # name \/ lines[4] # version \/ ~IsNumber(lines[5]) THEN Bad
    ELSE LET p == Projects(lines, 6, Num(lines[5], 0), << >>, << >>)
         IN IF ~p[1] \/ p[4] > Len(lines) \/ ~IsNumber(lines[p[4]]) THEN Bad
            ELSE LET g == Langs(lines, p[4] + 1, Num(lines[p[4]], 0), p[2], known, << >>)
                 IN IF ~g[1] THEN Bad ELSE [ok |-> TRUE, required |-> p[3], langs |-> g[2]]

LangNames(m) == {m.langs[i][1] : i \in 1..Len(m.langs)}
OfLang(m, lang) == RangeOf(m.langs[CHOOSE i \in 1..Len(m.langs) : m.langs[i][1] = lang][2])

(* sel: [kind |-> "none" | "all" | "one" | "list", list]                     *)
Selected(m, sel) ==
    CASE sel.kind = "none" -> RangeOf(m.required)
      [] sel.kind = "all" -> RangeOf(m.required) \cup UNION {OfLang(m, x) : x \in LangNames(m)}
      [] sel.kind \in {"one", "list"} -> UNION {OfLang(m, x) : x \in RangeOf(sel.list)}
=============================================================================
