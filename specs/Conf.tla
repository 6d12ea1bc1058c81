-------------------------------- MODULE Conf --------------------------------
(* Storage designated by a path. Paths are sequences of names below a root.  *)
(* fs: [dirs, channels : sets of paths (directories, those with the patcher  *)
(* layout), confs : seq of <<path, conf>>, files : set of paths]             *)
(* conf: [ok, has (set of keys), type, path (seq), abs, patchline, symlinks, *)
(*        ccd, url, cdn]                                                     *)
EXTENDS Naturals, Sequences, FiniteSets

RangeOf(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Norm(_, _)
Norm(base, p) == IF p = << >> THEN base
                 ELSE IF p[1] = "." THEN Norm(base, Tail(p))
                 ELSE IF p[1] = ".." THEN Norm(IF base = << >> THEN << >> ELSE SubSeq(base, 1, Len(base) - 1), Tail(p))
                 ELSE Norm(Append(base, p[1]), Tail(p))
Parent(p) == SubSeq(p, 1, Len(p) - 1)
ConfName == "cdtb.storage.conf"
IsConf(fs, p) == \E i \in 1..Len(fs.confs) : fs.confs[i][1] = p
ConfAt(fs, p) == fs.confs[CHOOSE i \in 1..Len(fs.confs) : fs.confs[i][1] = p][2]

Refused == [ok |-> FALSE, type |-> "", path |-> << >>, patchline |-> "", symlinks |-> TRUE, ccd |-> "", url |-> ""]
Patcher(path, patchline, symlinks, ccd) ==
    [ok |-> TRUE, type |-> "patcher", path |-> path, patchline |-> patchline, symlinks |-> symlinks, ccd |-> ccd, url |-> ""]
Rads(path, url) == [ok |-> TRUE, type |-> "rads", path |-> path, patchline |-> "", symlinks |-> TRUE, ccd |-> "", url |-> url]

FromConf(dir, k) ==
    IF ~k.ok \/ "type" \notin RangeOf(k.has) \/ k.type \notin {"patcher", "rads"} THEN Refused
    ELSE LET path == IF "path" \notin RangeOf(k.has) THEN dir ELSE Norm(IF k.abs THEN << >> ELSE dir, k.path) has == RangeOf(k.has) IN
         IF k.type = "patcher"
         THEN Patcher(path, IF "patchline" \in has THEN k.patchline ELSE "live", ~("symlinks" \in has /\ ~k.symlinks), IF "ccd" \in has THEN k.ccd ELSE "")
         ELSE IF "url" \in has /\ "cdn" \in has THEN Refused
         ELSE Rads(path, IF "url" \in has THEN k.url ELSE IF "cdn" \in has THEN k.cdn ELSE "default")

(* input: [type ("" if there is no prefix), path]; a path with a prefix may  *)
(* also name an existing file or directory                                   *)
Lookup(fs, cwd, input) ==
    LET whole == Norm(cwd, input.whole) IN
    IF whole \in RangeOf(fs.dirs)
    THEN LET c == Append(whole, ConfName) IN
         IF IsConf(fs, c) THEN FromConf(whole, ConfAt(fs, c))
         ELSE IF whole \in RangeOf(fs.channels) THEN Patcher(whole, "live", TRUE, "") ELSE Refused
    ELSE IF IsConf(fs, whole) THEN FromConf(Parent(whole), ConfAt(fs, whole))
    ELSE IF input.type = "patcher" THEN Patcher(Norm(cwd, input.rest), "live", TRUE, "")
    ELSE IF input.type = "rads" THEN Rads(Norm(cwd, input.rest), "default")
    ELSE IF input.type # "" THEN Refused
    ELSE Patcher(whole, "live", TRUE, "")

(* option --patchline ("" if not given)                                      *)
WithPatchline(r, opt) == IF opt = "" \/ ~r.ok THEN r ELSE IF r.type = "patcher" THEN [r EXCEPT !.patchline = opt] ELSE Refused
=============================================================================
