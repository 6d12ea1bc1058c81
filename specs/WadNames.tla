------------------------------ MODULE WadNames ------------------------------
(* Names under which the entries of an archive are extracted.                *)
(* entry: [h, path ("" if unknown), head (first bytes), json, readable, tok] *)
EXTENDS Paths, FiniteSets

RangeOf(s) == {s[i] : i \in 1..Len(s)}

(* formats recognized from the first bytes, in order                         *)
Magic == <<
  <<<<255, 216, 255, 219>>, "jpg">>, <<<<255, 216, 255, 225>>, "jpg">>, <<<< >>, "jpg">>,
  <<<<137, 80, 78, 71, 13, 10, 26, 10>>, "png">>, <<<<71, 73, 70, 56, 55, 97>>, "gif">>, <<<<71, 73, 70, 56, 57, 97>>, "gif">>,
  <<<<79, 103, 103, 83>>, "ogg">>, <<<<0, 1, 0, 0>>, "ttf">>, <<<<26, 69, 223, 163>>, "webm">>, <<<<116, 114, 117, 101>>, "ttf">>,
  <<<<79, 84, 84, 79, 0>>, "otf">>,
  <<<<34, 117, 115, 101, 32, 115, 116, 114, 105, 99, 116, 34, 59>>, "min.js">>,
  <<<<60, 116, 101, 109, 112, 108, 97, 116, 101, 32>>, "template.html">>,
  <<<<60, 33, 45, 45, 32, 69, 108, 101, 109, 101, 110, 116, 115, 32, 45, 45, 62>>, "template.html">>,
  <<<<60, 33, 68, 79, 67, 84, 89, 80, 69, 32, 104, 116, 109, 108, 62>>, "html">>,
  <<<<60, 104, 116, 109, 108>>, "html">>, <<<<68, 68, 83, 32>>, "dds">>, <<<<60, 115, 118, 103>>, "svg">>,
  <<<<80, 82, 79, 80>>, "bin">>, <<<<80, 84, 67, 72>>, "bin">>, <<<<66, 75, 72, 68>>, "bnk">>,
  <<<<114, 51, 100, 50, 77, 101, 115, 104>>, "scb">>, <<<<114, 51, 100, 50, 97, 110, 109, 100>>, "anm">>,
  <<<<114, 51, 100, 50, 99, 97, 110, 109>>, "anm">>, <<<<114, 51, 100, 50, 115, 107, 108, 116>>, "skl">>, <<<<114, 51, 100, 50>>, "wpk">>,
  <<<<51, 34, 17, 0>>, "skn">>,
  <<<<80, 114, 101, 76, 111, 97, 100, 66, 117, 105, 108, 100, 105, 110, 103, 66, 108, 111, 99, 107, 115, 32, 61, 32, 123>>, "preload">>,
  <<<<27, 76, 117, 97, 81, 0, 1, 4, 4>>, "luabin">>, <<<<27, 76, 117, 97, 81, 0, 1, 4, 8>>, "luabin64">>,
  <<<<2, 61, 0, 40>>, "troybin">>, <<<<91, 79, 98, 106, 101, 99, 116, 66, 101, 103, 105, 110, 93>>, "sco">>,
  <<<<79, 69, 71, 77>>, "mapgeo">>, <<<<84, 69, 88, 0>>, "tex">>, <<<<0, 97, 115, 109>>, "wasm">>,
  <<<<85, 110, 105, 116, 121, 70, 83>>, "bundle">>, <<<<85, 110, 105, 116, 121, 87, 101, 98, 68, 97, 116, 97, 49, 46, 48>>, "data">> >>
Has(s, i, p) == Len(s) >= i + Len(p) - 1 /\ SubSeq(s, i, i + Len(p) - 1) = p
IsFormat(m, s) == IF m[1] = << >> THEN Has(s, 7, <<74, 70, 73, 70>>) \/ Has(s, 7, <<69, 120, 105, 102>>) ELSE Has(s, 1, m[1])
RECURSIVE GuessFrom(_, _)
GuessFrom(i, s) == IF i > Len(Magic) THEN "" ELSE IF IsFormat(Magic[i], s) THEN Magic[i][2] ELSE GuessFrom(i + 1, s)
Guess(e) == IF ~e.readable \/ e.head = << >> THEN ""
            ELSE LET g == GuessFrom(1, e.head) IN IF g = "" /\ e.json THEN "json" ELSE g

(* name before shortening                                                    *)
FullName(e) ==
    LET g == Guess(e) dotted == IF g = "" THEN "" ELSE "." \o g
    IN IF e.path = "" THEN "unknown/" \o e.h \o dotted
       ELSE IF Ext(e.path) = "" THEN e.path \o ".cdtb" \o dotted ELSE e.path
MaxName == 255
Long(name) == Len(Base(name)) >= 250
Possible(name) == \A p \in RangeOf(Parts(Dir(name))) : Len(p) <= MaxName
(* acceptable names for an over-long one                                     *)
Short(name, got) == Dir(got) = Dir(name) /\ Len(Base(got)) <= MaxName /\ EndsWith(got, Ext(name))

(* sel: [unknown, patterns (<< >>: no selection by pattern)]                 *)
Selects(sel, e) ==
    /\ CASE sel.unknown = "yes" -> TRUE [] sel.unknown = "only" -> e.path = "" [] sel.unknown = "no" -> e.path # ""
    /\ sel.patterns # << >> => e.path # "" /\ \E i \in 1..Len(sel.patterns) : Glob(sel.patterns[i], e.path)
Extracted(es, sel) == {e \in RangeOf(es) : e.readable /\ Selects(sel, e) /\ Possible(FullName(e))}
Plain(es, sel) == {e \in Extracted(es, sel) : ~Long(FullName(e))}
Lengthy(es, sel) == {e \in Extracted(es, sel) : Long(FullName(e))}
=============================================================================
