----------------------------- MODULE MC_Variants -----------------------------
(* Promises of methods on all small sets of small paths: same variants as    *)
(* their construction (formats, then values); more known paths never mean    *)
(* fewer variants; known paths are variants of themselves.                   *)
EXTENDS Variants
CONSTANTS Letters, MaxLen, MaxKnown
VARIABLES known, step

RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {""} ELSE LET s == Strings(n - 1) IN s \cup {x \o y : x \in s, y \in Letters}
Paths == {p \in Strings(MaxLen) : p # "" /\ Ch(p, 1) # "/" /\ ~Ends(p, "/") /\ ~Has(p, "//")}

Init == known = {} /\ step = 0
Next == /\ Cardinality(known) < MaxKnown /\ step' = step + 1
        /\ \E p \in Paths : p \notin known /\ known' = known \cup {p}
Spec == Init /\ [][Next]_<<known, step>>

(* constructions *)
Split(p, r) == <<Upto(p, r[1] - 1), From(p, r[2] + 1)>>
GenNumbers == UNION {{Split(p, r)[1] \o n \o Split(p, r)[2] : r \in NumberRuns(p), n \in {"0", "1", "2"}} : p \in known}
GenDigits == UNION {{Split(p, r)[1] \o n \o Split(p, r)[2] : r \in {q \in NumberRuns(p) : q[1] = q[2]}, n \in {"0", "1", "2"}} : p \in known}
GenWords(ws) == UNION {{Split(p, r)[1] \o w \o Split(p, r)[2] : r \in WordRuns(p), w \in ws} : p \in known}
GenExt == {Prefix(p) \o Ext(q) : p, q \in {k \in known : ~Ends(Ext(k), "00")}} \cup {Prefix(p) \o Ext(q) : p \in known, q \in {k \in known : ~Ends(Ext(k), "00")}}
GenBasenames == {d \o "/" \o Base(q) : d \in Dirs(known), q \in known}
GenPrefixes == {Upto(p, LastSlash(p)) \o x \o Base(p) : p \in known, x \in {"a", "1_"}}

Of(m, a) == {t \in Paths : Promised(m, a, known, t)}
A(ws) == [words |-> ws, plugin |-> "", ext |-> "", nold |-> 1, nnew |-> 1, without |-> {}, nmax |-> 3, digits |-> 0, prefixes |-> {"a", "1_"}, names |-> {"a", "b.a"}]
AllSame ==
    /\ Of("numbers", A({})) = GenNumbers \cap Paths
    /\ Of("numbers", [A({}) EXCEPT !.digits = 1]) = GenDigits \cap Paths
    /\ Of("words", A({"a", "b"})) = GenWords({"a", "b"}) \cap Paths
    /\ Of("words", A({})) = GenWords(Words(known)) \cap Paths
    /\ Of("ext", A({})) = GenExt \cap Paths
    /\ Of("basenames", A({})) = GenBasenames \cap Paths
    /\ Of("prefixes", A({})) = GenPrefixes \cap Paths
    /\ Of("names", A({})) = {d \o "/" \o n : d \in Dirs(known), n \in {"a", "b.a"}} \cap Paths
    /\ \A t \in Of("addword", A({})) : \E i \in 1..Len(t) : Ch(t, i) \in {"-", "_"}
Methods == {"numbers", "words", "ext", "basenames", "prefixes", "names", "addword", "suffixes"}
More == [][\A m \in Methods : {t \in Paths : Promised(m, A({}), known, t)} \subseteq {t \in Paths : Promised(m, A({}), known', t)}]_<<known, step>>
Reflexive ==
    /\ \A p \in known : LastSlash(p) > 1 => SubstBasenames(known, p)
    /\ \A p \in known : ~Ends(Ext(p), "00") => SubstExt(known, p)
    /\ \A p \in known : WordRuns(p) # {} /\ ~(\E r \in WordRuns(p) : AllDigits(SubSeq(p, r[1], r[2])) /\ r[2] - r[1] >= 2)
                        => Promised("words", A({}), known, p)
    /\ \A p \in known : Extension(p) > 0 /\ ~(\E i \in Positions(p, "/"), j \in Positions(p, ".") : j < i) => SubstSuffixes(known, p)
=============================================================================
