-------------------------------- MODULE Cli --------------------------------
(* Commands run in a working directory, next to a storage and hash lists.    *)
(*                                                                           *)
(* State s: files: function from paths (sequences of names) to [what, id],   *)
(*   dirs: set of paths, known: [lcu, game : sets of path names],            *)
(*   got: set of downloaded elements                                         *)
(* World w: wads: id -> sequence of [n (path name), p (path), u (name when   *)
(*   unknown), clues (path names found in its content)], skns: id ->         *)
(*   sequence of names, lists: id -> set of path names, comps: component     *)
(*   string -> set of elements (only those which are found), elems: element  *)
(*   -> [ext, id] of its archive                                             *)
(* Command o: [cmd, in, out, unk, hl, flag, ins, meths, comps, arg]          *)
EXTENDS Naturals, Sequences, FiniteSets

RangeOf(q) == {q[i] : i \in 1..Len(q)}
Prefixes(p) == {SubSeq(p, 1, i) : i \in 0..Len(p)}
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Name(p) == p[Len(p)]

(* -- names -- *)
Dots(n) == {i \in 1..Len(n) : SubSeq(n, i, i) = "."}
(* leading dots do not start an extension *)
ExtDots(n) == {i \in Dots(n) : \E j \in 1..(i - 1) : j \notin Dots(n)}
Stem(n) == IF ExtDots(n) = {} THEN n ELSE SubSeq(n, 1, (CHOOSE i \in ExtDots(n) : \A j \in ExtDots(n) : j <= i) - 1)
EndsWith(n, e) == Len(n) >= Len(e) /\ SubSeq(n, Len(n) - Len(e) + 1, Len(n)) = e
Kind(n) == IF EndsWith(n, ".wad.client") THEN "game" ELSE IF EndsWith(n, ".wad") THEN "lcu" ELSE ""
DefaultOut(p) == Append(Parent(p), Stem(Name(p)))

(* -- files -- *)
(* an exported patch, a directory, counts as one file *)
IsFile(s, p) == p \in DOMAIN s.files /\ s.files[p].what # "export"
Is(s, p, what) == IsFile(s, p) /\ s.files[p].what = what
IsDir(s, p) == p \in s.dirs
(* a directory can be made there, or is there *)
Usable(s, p) == \A q \in Prefixes(p) : ~IsFile(s, q)
Add(s, out, new, lazy) ==
    LET at(q) == out \o q
        paths == {at(q) : q \in DOMAIN new}
        kept == IF lazy THEN {p \in paths : IsFile(s, p)} ELSE {}
    IN [s EXCEPT !.files = [p \in DOMAIN s.files \cup paths |->
                            IF p \in paths \ kept THEN new[CHOOSE q \in DOMAIN new : at(q) = p] ELSE s.files[p]],
                 !.dirs = @ \cup Prefixes(out) \cup UNION {Prefixes(Parent(p)) : p \in paths}]
(* directories without files may be made or not *)
SameTree(s, old, t) ==
    /\ t.files = s.files
    /\ old.dirs \cap s.dirs \subseteq t.dirs
    /\ t.dirs \subseteq s.dirs
    /\ \A p \in DOMAIN s.files : Prefixes(Parent(p)) \subseteq t.dirs

(* -- archives -- *)
Entries(w, id, known, unk) ==
    {e \in RangeOf(w.wads[id]) : CASE unk = "only" -> e.n \notin known [] unk = "no" -> e.n \in known [] OTHER -> TRUE}
Extracted(w, id, known, unk) ==
    LET es == Entries(w, id, known, unk)
        to(e) == IF e.n \in known THEN e.p ELSE <<"unknown", e.u>>
    IN [q \in {to(e) : e \in es} |-> [what |-> "entry", id |-> id \o "/" \o (CHOOSE e \in es : to(e) = q).n]]
KnownFor(s, w, o) == IF o.hl # << >> THEN w.lists[s.files[o.hl].id] ELSE IF Kind(Name(o.in)) = "game" THEN s.known.game ELSE s.known.lcu

(* -- guessing -- *)
Methods == {"grep", "numbers", "basenames", "words", "ext", "regionlang", "plugin", "skin-num", "character", "prefixes"}
ElementsOf(w, o) == UNION {w.comps[o.comps[i]] : i \in 1..Len(o.comps)}
GuessWads(s, w, o) == {s.files[p].id : p \in {p \in RangeOf(o.ins) : Kind(Name(p)) = "lcu"}}
                      \cup {w.elems[e].id : e \in {e \in ElementsOf(w, o) : w.elems[e].ext = "lcu"}}
Found(s, w, o) ==
    LET ids == GuessWads(s, w, o) es == UNION {RangeOf(w.wads[i]) : i \in ids}
    IN IF o.meths # << >> /\ "grep" \notin RangeOf(o.meths) THEN {}
       ELSE {e.n : e \in es} \cap UNION {RangeOf(e.clues) : e \in es}

(* -- what prevents a command -- *)
BadComponents(w, o) == \E i \in 1..Len(o.comps) : o.comps[i] \notin DOMAIN w.comps
Out(o) == IF o.out # << >> THEN o.out ELSE DefaultOut(o.in)
Problems(s, w, o) ==
    CASE o.cmd = "help" -> {}
      [] o.cmd \in {"wad-extract", "wad-list"} ->
           IF o.in = << >> THEN {"no-input"}
           ELSE (IF Is(s, o.in, "wad") THEN {} ELSE {"input"})
                \cup (IF o.hl # << >> /\ ~Is(s, o.hl, "list") THEN {"hashes"} ELSE {})
                \cup (IF o.hl = << >> /\ Kind(Name(o.in)) = "" THEN {"no-default-hashes"} ELSE {})
                \cup (IF o.cmd = "wad-extract" /\ ~Usable(s, Out(o)) THEN {"output"} ELSE {})
                \cup (IF o.cmd = "wad-extract" /\ o.unk \notin {"", "yes", "only", "no"} THEN {"unknown-option"} ELSE {})
      [] o.cmd = "skn-extract" ->
           IF o.in = << >> THEN {"no-input"}
           ELSE (IF Is(s, o.in, "skn") THEN {} ELSE {"input"}) \cup (IF Usable(s, Out(o)) THEN {} ELSE {"output"})
      [] o.cmd = "bin-dump" ->
           IF o.in = << >> THEN {"no-input"}
           ELSE (IF Is(s, o.in, "bin") THEN {} ELSE {"input"}) \cup (IF o.arg \in {"", "main", "9.1", "14.20"} THEN {} ELSE {"version"})
      [] o.cmd = "hashes-guess" ->
           IF o.arg = "list" THEN {}
           ELSE (IF o.ins = << >> /\ o.comps = << >> THEN {"no-input"} ELSE {})
                \cup (IF RangeOf(o.meths) \subseteq Methods THEN {} ELSE {"method"})
                \cup (IF \A p \in RangeOf(o.ins) : Is(s, p, "wad") THEN {} ELSE {"input"})
                \cup (IF ~BadComponents(w, o) /\ ElementsOf(w, o) \subseteq s.got THEN {} ELSE {"component"})
      [] o.cmd \in {"download", "files"} ->
           (IF o.comps = << >> THEN {"no-input"} ELSE {}) \cup (IF BadComponents(w, o) THEN {"component"} ELSE {})
           \cup (IF o.cmd = "files" /\ Len(o.comps) > 1 THEN {"arguments"} ELSE {})
      [] o.cmd = "versions" -> IF o.arg \in {"patch", "game", "client"} THEN {} ELSE {"type"}
      [] o.cmd = "export" ->
           (IF BadComponents(w, o) THEN {"patch"} ELSE {}) \cup (IF Usable(s, Append(o.out, o.arg)) THEN {} ELSE {"output"})
      [] OTHER -> {"command"}

(* nothing to write: no output directory is needed *)
Harmless(s, w, o) ==
    /\ o.cmd = "wad-extract" /\ Problems(s, w, o) = {"output"} /\ ~IsFile(s, Out(o))
    /\ DOMAIN Extracted(w, s.files[o.in].id, KnownFor(s, w, o), o.unk) = {}

(* -- effects of a command without problems -- *)
Effect(s, w, o) ==
    CASE o.cmd = "wad-extract" -> Add(s, Out(o), Extracted(w, s.files[o.in].id, KnownFor(s, w, o), o.unk), o.flag)
      [] o.cmd = "skn-extract" ->
           LET id == s.files[o.in].id names == RangeOf(w.skns[id])
           IN Add(s, Out(o), [q \in {<<n \o ".obj">> : n \in names} |-> [what |-> "obj", id |-> id \o "/" \o q[1]]], FALSE)
      [] o.cmd = "hashes-guess" -> IF o.arg = "list" \/ o.flag THEN s ELSE [s EXCEPT !.known.lcu = @ \cup Found(s, w, o)]
      [] o.cmd = "download" -> [s EXCEPT !.got = @ \cup ElementsOf(w, o)]
      [] o.cmd = "export" ->
           LET p == Append(o.out, o.arg)
               rest == [s EXCEPT !.files = [q \in {q \in DOMAIN s.files : p \notin Prefixes(q)} |-> s.files[q]],
                                 !.dirs = {q \in @ : p \notin Prefixes(q)}]
           IN Add([rest EXCEPT !.got = @ \cup ElementsOf(w, o)], o.out, [q \in {<<o.arg>>} |-> [what |-> "export", id |-> o.arg]], FALSE)
      [] OTHER -> s

(* something is printed: always, never or sometimes *)
Prints(s, w, o) ==
    CASE o.cmd \in {"help", "wad-list", "bin-dump", "files", "versions"} -> "yes"
      [] o.cmd = "hashes-guess" -> IF o.arg = "list" \/ Found(s, w, o) \ s.known.lcu # {} THEN "yes" ELSE "no"
      [] OTHER -> "any"
=============================================================================
