------------------------------ MODULE Patcher ------------------------------
(* The patcher storage: what downloading an element of a release does.       *)
(*                                                                           *)
(* An element is a sequence of files                                         *)
(*   [path, lpath, chunks : Seq(token), flags, lflags, link, size]           *)
(* a chunk token stands for the content of a chunk; tokens in Empties have   *)
(* no bytes. langs is [kind |-> "none" | "all" | "list", list |-> lowercased *)
(* names]. Visible files map "release/path" to what reading them gives.      *)
EXTENDS Naturals, Sequences, FiniteSets

RangeOf(s) == {s[i] : i \in 1..Len(s)}

(* -- language selection -- *)
IsLocale(flag) == Len(flag) = 5 /\ \E i \in 1..5 : SubSeq(flag, i, i) = "_"

SelectedBy(f, langs) ==
    CASE langs.kind = "all"  -> TRUE
      [] langs.kind = "none" -> \A x \in RangeOf(f.flags) : ~IsLocale(x)
      [] langs.kind = "list" -> \E x \in RangeOf(f.lflags) : x \in RangeOf(langs.list)

Selected(files, langs) == {f \in RangeOf(files) : SelectedBy(f, langs) /\ f.link = ""}

(* -- contents -- *)
RECURSIVE DropEmpty(_)
DropEmpty(s) == IF s = << >> THEN << >>
                ELSE (IF SubSeq(Head(s), 1, 1) = "E" THEN << >> ELSE <<Head(s)>>) \o DropEmpty(Tail(s))
Content(f) == DropEmpty(f.chunks)

Key(rel, f) == rel \o "/" \o f.path

(* -- locations of manifests -- *)
ManifestBase == "https://lol.dyn.riotcdn.net/channels/public/releases/"
RECURSIVE Unsecure(_)
Unsecure(u) == IF Len(u) < 8 THEN u
               ELSE IF SubSeq(u, 1, 8) = ".secure." THEN "." \o Unsecure(SubSeq(u, 9, Len(u)))
               ELSE SubSeq(u, 1, 1) \o Unsecure(SubSeq(u, 2, Len(u)))
HexDigits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F"}
(* name of the manifest at a location, "" if it is not one of a manifest *)
ManifestName(url) ==
    LET u == Unsecure(url)
        n == Len(ManifestBase)
        name == SubSeq(u, n + 1, Len(u))
    IN IF /\ Len(u) = n + 25
          /\ SubSeq(u, 1, n) = ManifestBase
          /\ \A i \in 1..16 : SubSeq(name, i, i) \in HexDigits
          /\ SubSeq(name, 17, 25) = ".manifest"
       THEN name ELSE ""

(* -- what is needed -- *)
(* vis: "rel/path" -> [c, size, ...] *)
Extracted(vis, rel, f) == Key(rel, f) \in DOMAIN vis /\ vis[Key(rel, f)].size = f.size

NeededBundles(files, langs, skip, vis, rel, bundleOf) ==
    UNION {{bundleOf[ch] : ch \in RangeOf(f.chunks)} :
             f \in {f \in Selected(files, langs) : ~(skip /\ Extracted(vis, rel, f))}}

(* -- outcome of a download, declaratively -- *)
(* visible files after the download of `files` of release `rel` *)
Intact(vis2, rel, sel) == \A f \in sel : Key(rel, f) \in DOMAIN vis2 /\ vis2[Key(rel, f)].c = Content(f)

(* nothing else changes; `right` are the files that had their proper content, *)
(* `dangling` the links which may become readable again                      *)
Frame(vis, vis2, rel, sel, right, dangling) ==
    LET mine == {Key(rel, f) : f \in sel}
    IN /\ DOMAIN vis2 \ mine \subseteq DOMAIN vis \cup dangling
       /\ \A k \in right \ mine : k \in DOMAIN vis2 /\ vis2[k].c = vis[k].c
=============================================================================
