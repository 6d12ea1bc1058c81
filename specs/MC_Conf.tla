------------------------------ MODULE MC_Conf ------------------------------
(* One directory "d", possibly with a configuration file and the patcher     *)
(* layout, all configurations; designated in every way.                      *)
EXTENDS Conf, TLC, Json
CONSTANT Emit
VARIABLES ph, k, dirs, channels, input, opt
vars == <<ph, k, dirs, channels, input, opt>>
NoConf == [ok |-> TRUE, has |-> << >>, type |-> "", path |-> << >>, abs |-> FALSE, patchline |-> "", symlinks |-> TRUE, ccd |-> "", url |-> "", cdn |-> ""]
Init == ph = 0 /\ k = NoConf /\ dirs = << <<"d">> >> /\ channels = << >> /\ input = [type |-> "", whole |-> << >>, rest |-> << >>] /\ opt = ""
Set(key, kk) == {k, [kk EXCEPT !.has = Append(@, key)]}
Steps == <<
  {k, [k EXCEPT !.has = Append(@, "type"), !.type = "patcher"], [k EXCEPT !.has = Append(@, "type"), !.type = "rads"], [k EXCEPT !.has = Append(@, "type"), !.type = "other"], [k EXCEPT !.ok = FALSE]},
  Set("path", [k EXCEPT !.path = <<".">>]) \cup Set("path", [k EXCEPT !.path = <<"..", "x", "y">>]) \cup Set("path", [k EXCEPT !.path = <<"x">>, !.abs = TRUE]),
  Set("patchline", [k EXCEPT !.patchline = "pbe"]) \cup Set("patchline", [k EXCEPT !.patchline = "live"]),
  Set("symlinks", [k EXCEPT !.symlinks = FALSE]) \cup Set("symlinks", k),
  Set("ccd", [k EXCEPT !.ccd = "u"]),
  Set("url", [k EXCEPT !.url = "http://u/"]),
  Set("cdn", [k EXCEPT !.cdn = "kr"]) >>
Inputs == {[type |-> "", whole |-> <<"d">>, rest |-> <<"d">>], [type |-> "", whole |-> <<"d", ConfName>>, rest |-> <<"d", ConfName>>],
           [type |-> "rads", whole |-> <<"rads:d">>, rest |-> <<"d">>], [type |-> "patcher", whole |-> <<"patcher:d">>, rest |-> <<"d">>],
           [type |-> "foo", whole |-> <<"foo:d">>, rest |-> <<"d">>], [type |-> "", whole |-> <<"new">>, rest |-> <<"new">>]}
Next == \/ /\ ph < Len(Steps) /\ k' \in Steps[ph + 1] /\ ph' = ph + 1 /\ UNCHANGED <<dirs, channels, input, opt>>
        \/ /\ ph = Len(Steps) /\ ph' = ph + 1 /\ channels' \in {<< >>, << <<"d">> >>} /\ dirs' \in {<< <<"d">> >>, << <<"d">>, <<"rads:d">> >>} /\ UNCHANGED <<k, input, opt>>
        \/ /\ ph = Len(Steps) + 1 /\ ph' = ph + 1 /\ input' \in Inputs /\ opt' \in {"", "live", "pbe"} /\ UNCHANGED <<k, dirs, channels>>
Done == ph = Len(Steps) + 2
fs == [dirs |-> dirs, channels |-> channels, confs |-> IF k.has = << >> /\ k.ok THEN << >> ELSE << <<<<"d", ConfName>>, k>> >>]
R == WithPatchline(Lookup(fs, << >>, input), opt)
R0 == Lookup(fs, << >>, input)
SameByFileOrDir == (Done /\ fs.confs # << >>) =>
    Lookup(fs, << >>, [type |-> "", whole |-> <<"d">>, rest |-> << >>]) = Lookup(fs, << >>, [type |-> "", whole |-> <<"d", ConfName>>, rest |-> << >>])
OptionOnlyChangesPatchline == Done => /\ (opt = "" => R = R0)
                                      /\ (R.ok => [R EXCEPT !.patchline = R0.patchline] = R0)
                                      /\ (R0.ok /\ R0.type = "rads" /\ opt # "" => ~R.ok)
Sane == (Done /\ R.ok) => R.type \in {"patcher", "rads"} /\ (R.type = "patcher" => R.patchline \in {"live", "pbe"}) /\ (R.type = "rads" => R.url # "")
EmitCase == (Emit /\ Done) => PrintT("SCENARIO " \o ToJson([fs |-> fs, input |-> input, opt |-> opt]))
=============================================================================
