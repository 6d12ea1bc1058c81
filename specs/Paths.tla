------------------------------- MODULE Paths -------------------------------
(* Texts of paths: directory, base name, extension, patterns                 *)
EXTENDS Naturals, Sequences

Ch(t, i) == SubSeq(t, i, i)
From(t, i) == SubSeq(t, i, Len(t))
StartsWith(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
EndsWith(t, p) == Len(t) >= Len(p) /\ SubSeq(t, Len(t) - Len(p) + 1, Len(t)) = p
RECURSIVE LastOf(_, _, _)
(* index of the last occurrence of a character in t[1..i], 0 if none         *)
LastOf(t, ch, i) == IF i = 0 THEN 0 ELSE IF Ch(t, i) = ch THEN i ELSE LastOf(t, ch, i - 1)
RECURSIVE FirstOf(_, _, _)
FirstOf(t, ch, i) == IF i > Len(t) THEN 0 ELSE IF Ch(t, i) = ch THEN i ELSE FirstOf(t, ch, i + 1)
Base(p) == From(p, LastOf(p, "/", Len(p)) + 1)
Dir(p) == LET i == LastOf(p, "/", Len(p)) IN IF i = 0 THEN "" ELSE SubSeq(p, 1, i - 1)
RECURSIVE NotDot(_, _)
NotDot(t, i) == IF i > Len(t) THEN 0 ELSE IF Ch(t, i) # "." THEN i ELSE NotDot(t, i + 1)
(* extension with its dot; a name made of leading dots has none              *)
Ext(p) == LET b == Base(p) s == NotDot(b, 1) d == LastOf(b, ".", Len(b)) IN IF s = 0 \/ d < s THEN "" ELSE From(b, d)
Stem(p) == SubSeq(p, 1, Len(p) - Len(Ext(p)))
RECURSIVE Parts(_)
Parts(p) == LET i == FirstOf(p, "/", 1) IN IF i = 0 THEN <<p>> ELSE <<SubSeq(p, 1, i - 1)>> \o Parts(From(p, i + 1))
(* shell patterns with * and ?                                               *)
RECURSIVE Glob(_, _)
Glob(g, t) == IF g = "" THEN t = ""
              ELSE IF Ch(g, 1) = "*" THEN Glob(From(g, 2), t) \/ (t # "" /\ Glob(g, From(t, 2)))
              ELSE t # "" /\ (Ch(g, 1) = "?" \/ Ch(g, 1) = Ch(t, 1)) /\ Glob(From(g, 2), From(t, 2))
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerLetters == "abcdefghijklmnopqrstuvwxyz"
LowerCh(ch) == LET i == FirstOf(Upper, ch, 1) IN IF i = 0 THEN ch ELSE Ch(LowerLetters, i)
RECURSIVE Lower(_)
Lower(t) == IF t = "" THEN "" ELSE LowerCh(Ch(t, 1)) \o Lower(From(t, 2))
=============================================================================
