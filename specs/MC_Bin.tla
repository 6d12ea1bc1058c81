------------------------------- MODULE MC_Bin -------------------------------
(* Files built value by value (a stack), written for each version, decode to *)
(* what was written; their prefixes do not decode.                           *)
EXTENDS Bin, TLC
CONSTANTS MaxSteps, Emit, Rich
VARIABLES stack, n, done, ver, tv, patch
vars == <<stack, n, done, ver, tv, patch>>

Versions == {1, 2, 3}
Eras == {922, 923, 1007, 1008}
H(k) == <<k, 1, 2, 200>>
Scalars == {Node("U8", "", <<7>>, << >>), Node("BOOL", "", <<1>>, << >>), Node("STRING", "", <<97, 195, 169>>, << >>), Node("LINK", "", H(9), << >>), Node("HASH", "", H(5), << >>)}
           \cup (IF Rich THEN {Node("STRING", "", << >>, << >>), Node("S64", "", <<1, 2, 3, 4, 5, 6, 7, 255>>, << >>), Node("FLOAT", "", <<0, 0, 128, 63>>, << >>), Node("VEC3_FLOAT", "", <<0, 0, 128, 63, 0, 0, 0, 192, 0, 0, 0, 0>>, << >>),
                               Node("EMPTY", "", <<1, 0, 2, 0, 3, 0>>, << >>), Node("RGBA", "", <<1, 2, 3, 4>>, << >>), Node("S8", "", <<255>>, << >>), Node("FLAG", "", <<1>>, << >>), Node("U32", "", <<0, 0, 0, 128>>, << >>),
                               Node("MATRIX4X4", "", [i \in 1..64 |-> IF i % 4 = 0 THEN 63 ELSE i], << >>), Node("STRUCT", "", <<0, 0, 0, 0>>, << >>)} ELSE {})
           \cup (IF Rich /\ tv >= 923 THEN {Node("PATH", "", <<1, 2, 3, 4, 5, 6, 7, 8>>, << >>)} ELSE {})
Top(k) == SubSeq(stack, Len(stack) - k + 1, Len(stack))
Under(k) == SubSeq(stack, 1, Len(stack) - k)
SameType(s) == \A i \in 1..Len(s) : s[i].t = s[1].t
Put(k, v) == stack' = Append(Under(k), v)
Field(i, v) == Node("FIELD", "", H(i), <<v>>)
Named(s) == [i \in 1..Len(s) |-> Field(i, s[i])]
Sized == {"U8", "HASH", "STRING", "STRUCT", "MAP", "OPTION", "LIST"}
Init == stack = << >> /\ n = 0 /\ done = FALSE /\ ver \in Versions /\ tv \in Eras /\ patch \in BOOLEAN
Step ==
    /\ ~done /\ n < MaxSteps /\ n' = n + 1 /\ UNCHANGED <<done, ver, tv, patch>>
    /\ \/ \E s \in Scalars : stack' = Append(stack, s)
       \/ \E t \in Sized, l \in {"LIST"} \cup (IF tv >= 1008 THEN {"LIST2"} ELSE {}) : Put(0, Node(l, t, << >>, << >>))
       \/ \E k \in 1..Len(stack), l \in {"LIST"} \cup (IF tv >= 1008 THEN {"LIST2"} ELSE {}) : SameType(Top(k)) /\ Put(k, Node(l, Top(1)[1].t, << >>, Top(k)))
       \/ \E k \in 0..Len(stack) : Put(k, Node("STRUCT", "", H(20), Named(Top(k)))) \/ Put(k, Node("EMBEDDED", "", H(21), Named(Top(k))))
       \/ \E t \in Sized : Put(0, Node("OPTION", t, << >>, << >>))
       \/ stack # << >> /\ Put(1, Node("OPTION", Top(1)[1].t, << >>, Top(1)))
       \/ \E k \in 1..Len(stack) : /\ SameType(Top(k))
             /\ Put(k, Node("MAP", "U8," \o Top(1)[1].t, << >>, [i \in 1..k |-> Node("PAIR", "", << >>, <<Node("U8", "", <<i>>, << >>), Top(k)[i]>>)]))
Finish == ~done /\ done' = TRUE /\ UNCHANGED <<stack, n, ver, tv, patch>>
Next == Step \/ Finish

(* -- writing -- *)
TypesOf(e) == {SimpleTypes[i] : i \in 1..18} \cup {ComplexTypes(e)[i] : i \in 1..Len(ComplexTypes(e))} \cup (IF e >= 923 THEN {"PATH"} ELSE {})
CodeTable == [e \in Eras |-> [t \in TypesOf(e) |-> CHOOSE c \in 0..255 : TypeOf(c, e) = t]]
Code(t) == CodeTable[tv][t]
RECURSIVE Enc(_), EncAll(_)
Elements(v) == v.kids
KeyT(v) == Code("U8")
ValT(v) == Code(v.kids[1].kids[2].t)
EncField(f) == f.b \o <<Code(f.kids[1].t)>> \o Enc(f.kids[1])
RECURSIVE EncFields(_), EncPairs(_)
EncFields(fs) == IF fs = << >> THEN << >> ELSE EncField(fs[1]) \o EncFields(Tail(fs))
EncPairs(ps) == IF ps = << >> THEN << >> ELSE Enc(ps[1].kids[1]) \o Enc(ps[1].kids[2]) \o EncPairs(Tail(ps))
EncAll(vs) == IF vs = << >> THEN << >> ELSE Enc(vs[1]) \o EncAll(Tail(vs))
Enc(v) ==
    CASE v.t = "STRING" -> LE(Len(v.b), 2) \o v.b
      [] v.t \in {"LIST", "LIST2"} -> <<Code(v.sub)>> \o LE(Len(EncAll(v.kids)) + 4, 4) \o LE(Len(v.kids), 4) \o EncAll(v.kids)
      [] v.t = "STRUCT" /\ Zero(v.b) -> v.b
      [] v.t \in {"STRUCT", "EMBEDDED"} -> v.b \o LE(Len(EncFields(v.kids)) + 2, 4) \o LE(Len(v.kids), 2) \o EncFields(v.kids)
      [] v.t = "OPTION" -> <<Code(v.sub), Len(v.kids)>> \o EncAll(v.kids)
      [] v.t = "MAP" -> <<KeyT(v), ValT(v)>> \o LE(Len(EncPairs(v.kids)) + 4, 4) \o LE(Len(v.kids), 4) \o EncPairs(v.kids)
      [] OTHER -> v.b
(* the last value is in a second entry, and in a patch *)
Parts == IF Len(stack) < 2 THEN <<Named(stack)>> ELSE <<Named(Under(1)), Named(Top(1))>>
TheEntries == [i \in 1..Len(Parts) |-> Node("ENTRY", "", H(30 + i) \o H(40 + i), Parts[i])]
EncEntry(e) == LE(Len(EncFields(e.kids)) + 6, 4) \o SubSeq(e.b, 1, 4) \o LE(Len(e.kids), 2) \o EncFields(e.kids)
RECURSIVE EncEntries(_)
EncEntries(es) == IF es = << >> THEN << >> ELSE EncEntry(es[1]) \o EncEntries(Tail(es))
Linked == << <<97>>, <<98, 47, 99>> >>
Types == IF Len(TheEntries) = 1 THEN SubSeq(TheEntries[1].b, 5, 8) ELSE SubSeq(TheEntries[1].b, 5, 8) \o SubSeq(TheEntries[2].b, 5, 8)
HasPatches == patch /\ ver >= 3
ThePatches == IF HasPatches /\ stack # << >> THEN <<Node("PATCH", "", H(50), <<Node("PFIELD", "", <<120>>, Top(1)), Node("PFIELD", "", <<121>>, <<stack[1]>>)>>)>> ELSE << >>
EncPatch(h, f) == h \o LE(99, 4) \o <<Code(f.kids[1].t)>> \o LE(Len(f.b), 2) \o f.b \o Enc(f.kids[1])
File == (IF patch THEN PTCH \o <<1, 0, 0, 0, 0, 0, 0, 0>> ELSE << >>) \o PROP \o LE(ver, 4)
        \o (IF ver >= 2 THEN LE(2, 4) \o LE(1, 2) \o Linked[1] \o LE(3, 2) \o Linked[2] ELSE << >>)
        \o LE(Len(TheEntries), 4) \o Types \o EncEntries(TheEntries)
        \o (IF ~HasPatches THEN << >> ELSE IF ThePatches = << >> THEN LE(0, 4) ELSE LE(2, 4) \o EncPatch(H(50), ThePatches[1].kids[1]) \o EncPatch(H(50), ThePatches[1].kids[2]))

Names == [entries |-> << <<H(31), <<69>> >> >>, fields |-> << <<H(1), <<70>> >> >>, types |-> << >>, hashes |-> << >>, paths |-> << >>]
RoundTrip == LET d == Decode(File, tv) IN
    /\ d.ok /\ d.version = LE(ver, 4) /\ d.hasLinked = (ver >= 2) /\ d.linked = (IF ver >= 2 THEN Linked ELSE << >>)
    /\ d.entries = TheEntries /\ d.hasPatches = HasPatches /\ d.patches = ThePatches
    /\ Same(JsonFile(d, Names), JsonFile(d, Names))
(* cut files are rejected *)
Prefixes == done => LET f == File IN \A i \in 0..(Len(f) - 1) : ~Decode(SubSeq(f, 1, i), tv).ok
(* one type per code, one code per type *)
Codes == \A e \in Eras : \A t \in TypesOf(e) : Cardinality({c \in 0..255 : TypeOf(c, e) = t}) = 1
ASSUME Codes
ASSUME Fnv(<<97>>) = <<44, 41, 12, 228>> /\ Fnv(<<65>>) = Fnv(<<97>>)
ASSUME Signed(<<255, 255>>) = "-1" /\ Unsigned(<<255, 255, 255, 255, 255, 255, 255, 255>>) = "18446744073709551615" /\ Signed(<<0, 0, 0, 128>>) = "-2147483648"
EmitFile == (Emit /\ done) => PrintT("SCENARIO {\"tv\":" \o ToString(tv) \o ",\"bytes\":\"" \o ToString(File) \o "\"}")
=============================================================================
