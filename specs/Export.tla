------------------------------- MODULE Export -------------------------------
(* What a patch exports.                                                     *)
(* version: <<major, minor>>, << >> for main. A source of a patch is         *)
(* [wad, path (lowercase), c, es, v1]; entries of an archive are             *)
(* [h, path ("" if unknown), c, redir, ext (guessed from its content)].      *)
(* C: contents, by id: [raw, ok, img, tex, bin, rst, atlas, skins, objs,     *)
(* none]: tokens of what this data is converted to ("" if it cannot be); none: *)
(* it cannot even be read.                                                    *)
EXTENDS Paths, FiniteSets

RangeOf(s) == {s[i] : i \in 1..Len(s)}
AtLeast(v, w) == v = << >> \/ v[1] > w[1] \/ (v[1] = w[1] /\ v[2] >= w[2])

(* -- text helpers -- *)
RECURSIVE HasFrom(_, _, _)
HasFrom(t, x, i) == IF i + Len(x) - 1 > Len(t) THEN FALSE ELSE SubSeq(t, i, i + Len(x) - 1) = x \/ HasFrom(t, x, i + 1)
Has(t, x) == HasFrom(t, x, 1)
RECURSIVE NoDigits(_)
NoDigits(t) == IF t # "" /\ FirstOf("0123456789", Ch(t, Len(t)), 1) # 0 THEN NoDigits(SubSeq(t, 1, Len(t) - 1)) ELSE t

(* -- conversions -- *)
IsRstPath(p) == (EndsWith(p, ".txt") \/ EndsWith(p, ".stringtable")) /\ StartsWith(p, "game/")
                /\ (StartsWith(p, "game/data/menu/") \/ Has(p, "/data/menu/"))
Kind(p) ==
    CASE Ext(p) \in {".dds", ".tga"} -> "img"
      [] Ext(p) = ".tex" -> "tex"
      [] StartsWith(p, "game/") /\ EndsWith(p, ".cdtb") -> "atlas"
      [] StartsWith(p, "game/assets/items/icons2d/autoatlas/") /\ EndsWith(p, "/atlas_info.bin") -> "atlas"
      [] StartsWith(p, "game/") /\ EndsWith(p, ".bin") -> "bin"
      [] Ext(p) = ".skn" -> "skn"
      [] IsRstPath(p) -> "rst"
      [] p = "game/global/champions/championskins.info" -> "skins"
      [] OTHER -> "copy"
(* paths a file is exported as; a mesh gets a directory                      *)
Outputs(p) ==
    LET k == Kind(p) IN
    CASE k \in {"img", "tex"} -> {Stem(p) \o ".png"}
      [] k \in {"atlas", "skins"} -> {p \o ".json"}
      [] k \in {"bin", "rst"} -> {p, p \o ".json"}
      [] k = "skn" -> {p, Stem(p)}
      [] OTHER -> {p}
DirOutputs(p) == IF Kind(p) = "skn" THEN {Stem(p)} ELSE {}
(* files written for a content: [p, t (token), sem]                          *)
Raw(p, c) == [p |-> p, t |-> c.raw, sem |-> FALSE]
Sem(p, t) == IF t = "" THEN {} ELSE {[p |-> p, t |-> t, sem |-> TRUE]}
Files(p, c) ==
    LET k == Kind(p) IN
    CASE c.none -> {}
      [] k = "img" -> Sem(Stem(p) \o ".png", c.img)
      [] k = "tex" -> Sem(Stem(p) \o ".png", c.tex)
      [] k = "atlas" -> Sem(p \o ".json", c.atlas)
      [] k = "skins" -> Sem(p \o ".json", c.skins)
      [] k = "bin" -> {Raw(p, c)} \cup Sem(p \o ".json", c.bin)
      [] k = "rst" -> {Raw(p, c)} \cup Sem(p \o ".json", c.rst)
      [] k = "skn" -> {Raw(p, c)} \cup {[p |-> Stem(p) \o "/" \o n, t |-> c.objs[n], sem |-> TRUE] : n \in DOMAIN c.objs}
      [] OTHER -> {Raw(p, c)}

(* -- selection and place of files -- *)
Executable(p) == EndsWith(p, ".exe") \/ EndsWith(p, ".dll")
(* name of an archive entry *)
EntryName(e) ==
    LET dotted == IF e.ext = "" THEN "" ELSE "." \o e.ext
    IN IF e.path = "" THEN e.h \o dotted ELSE IF Ext(e.path) = "" THEN e.path \o ".cdtb" \o dotted ELSE e.path
(* unknown entries of the archives of assets of a plugin are put with it     *)
IsAssets(b) == EndsWith(b, ".wad") /\ EndsWith(NoDigits(SubSeq(b, 1, Len(b) - 4)), "assets")
UnknownDir(a) ==
    IF StartsWith(a, "plugins/rcp-") /\ IsAssets(Base(a)) /\ Len(Dir(a)) > Len("plugins/rcp-") THEN Dir(a) \o "/unknown" ELSE "unknown"
IsGame(a) == EndsWith(a, ".wad.client")
GameDir(v, a) ==
    LET s == SubSeq(a, 1, Len(a) - Len(".wad.client")) n == Len(s)
    IN IF AtLeast(v, <<14, 4>>) /\ n >= 6 /\ Ch(s, n - 5) = "." /\ Ch(s, n - 2) = "_" THEN "game/" \o Lower(SubSeq(s, n - 4, n)) ELSE "game"
GameExts == {".png", ".skn", ".txt", ".stringtable", ".json", ".ttf", ".otf"}
KeepGame(p) ==
    IF \E o \in Outputs(p) : Ext(o) = ".bin" THEN ~Has(p, "_skins_") ELSE \E o \in Outputs(p) : Ext(o) \in GameExts
(* files of a source, before conversion: [p, c, a (archive), wad, v1, h]     *)
SourceFiles(v, s) ==
    IF ~s.wad THEN IF Executable(s.path) \/ EndsWith(s.path, "/description.json") THEN {} ELSE {[p |-> s.path, c |-> s.c, a |-> "", h |-> "", wad |-> FALSE, v1 |-> FALSE]}
    ELSE LET named == {[e |-> e, p |-> IF e.path = "" THEN UnknownDir(s.path) \o "/" \o EntryName(e) ELSE EntryName(e)] : e \in {x \in RangeOf(s.es) : ~x.redir}}
             placed == IF IsGame(s.path) THEN {[x EXCEPT !.p = GameDir(v, s.path) \o "/" \o x.p] : x \in {y \in named : ~Executable(y.p)}}
                       ELSE {y \in named : ~Executable(y.p)}
         IN {[p |-> x.p, c |-> x.e.c, a |-> s.path, h |-> x.e.h, wad |-> TRUE, v1 |-> s.v1] : x \in {y \in placed : IsGame(s.path) => KeepGame(y.p)}}
PatchFiles(v, srcs) == UNION {SourceFiles(v, s) : s \in RangeOf(srcs)}
(* paths of the exported files, converted ones included                      *)
Planned(v, srcs) == UNION {Outputs(f.p) : f \in PatchFiles(v, srcs)}
PlannedDirs(v, srcs) == UNION {DirOutputs(f.p) : f \in PatchFiles(v, srcs)}
(* the files themselves, as far as the file system accepts their names       *)
Writable(p) == \A i \in 1..Len(Parts(p)) : Len(Parts(p)[i]) <= 255
Expected(C, v, srcs) == UNION {Files(f.p, C[f.c]) : f \in {x \in PatchFiles(v, srcs) : Len(x.p) <= 255 \/ Writable(x.p)}}
Unknown(srcs) == {e.h : e \in {x \in UNION {RangeOf(s.es) : s \in {y \in RangeOf(srcs) : y.wad}} : ~x.redir /\ x.path = ""}}

(* -- exported trees: path -> [k, raw, sem, to] -- *)
TokOf(n, x) == IF x.sem THEN n.sem ELSE n.raw
Holds(T, x) == x.p \in DOMAIN T /\ T[x.p].k = "f" /\ TokOf(T[x.p], x) = x.t
FilesIn(T) == {p \in DOMAIN T : T[p].k # "d"}
LinksIn(T) == {p \in DOMAIN T : T[p].k = "l"}
Under(p, d) == p = d \/ StartsWith(p, d \o "/")
(* a view (files visible through links) shows exactly E                      *)
Shows(V, E) == DOMAIN V = {x.p : x \in E} /\ \A x \in E : TokOf(V[x.p], x) = x.t
=============================================================================
