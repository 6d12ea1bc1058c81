------------------------------- MODULE MC_Rst -------------------------------
(* Tables built entry by entry, laid out in several ways, decode to what was *)
(* written.                                                                  *)
EXTENDS Rst, TLC
CONSTANTS MaxEntries, Emit, Few
VARIABLES entries, ver, gv, config, layout, trenc, done
vars == <<entries, ver, gv, config, layout, trenc, done>>

Hashes == IF Few THEN {<<1, 2, 3, 4, 63>>, <<255, 255, 255, 255, 5>>} ELSE {<<1, 2, 3, 4, 63>>, <<255, 255, 255, 255, 5>>, <<1, 2, 3, 4, 127>>, <<0, 0, 0, 0, 200>>}
Texts == IF Few THEN {<<97>>, <<98, 97>>, <<255, 1>>} ELSE {<< >>, <<97>>, <<98, 97>>, <<195, 169>>, <<97, 146, 98>>, <<255, 1>>}
Init == /\ entries = << >> /\ done = FALSE /\ ver \in 2..5 /\ gv \in {1410, 1415, 1501, 1502} /\ layout \in {"own", "shared", "reversed"}
        /\ config \in (IF ver = 2 THEN {<< >>, <<99, 255, 100>>} ELSE {<< >>}) /\ trenc \in (IF ver = 5 THEN {FALSE} ELSE BOOLEAN)
TheBits == Bits(ver, gv)
Add == /\ ~done /\ Len(entries) < MaxEntries /\ UNCHANGED <<ver, gv, config, layout, trenc, done>>
       /\ \E h \in Hashes, t \in Texts, e \in (IF trenc THEN BOOLEAN ELSE {FALSE}) :
            h[5] < Pow(TheBits) /\ (IF e \/ ~trenc \/ t = << >> THEN TRUE ELSE t[1] # 255) /\ entries' = Append(entries, [h |-> h, t |-> t, enc |-> e])
Finish == ~done /\ done' = TRUE /\ UNCHANGED <<entries, ver, gv, config, layout, trenc>>
Next == Add \/ Finish

(* -- writing: one string after the other, or sharing ends of strings -- *)
Str(e) == IF e.enc THEN <<255>> \o LE(Len(e.t), 2) \o e.t ELSE e.t \o <<0>>
At0(d, s) == {i \in 0..(Len(d) - Len(s)) : SubSeq(d, i + 1, i + Len(s)) = s}
RECURSIVE Lay(_, _, _)
(* data and offsets *)
Lay(es, d, offs) ==
    IF es = << >> THEN [d |-> d, offs |-> offs]
    ELSE LET s == Str(es[1])
             at == At0(d, s)
         IN IF layout = "shared" /\ at # {} THEN Lay(Tail(es), d, Append(offs, CHOOSE i \in at : TRUE)) ELSE Lay(Tail(es), d \o s, Append(offs, Len(d)))
Laid == IF layout = "reversed" THEN LET r == Lay(Rev(entries), << >>, << >>) IN [d |-> r.d, offs |-> Rev(r.offs)] ELSE Lay(entries, << >>, << >>)
Word(h, off) == LET m == 256 \div Pow(TheBits) IN <<h[1], h[2], h[3], h[4], h[5] + Pow(TheBits) * (off % m), (off \div m) % 256, off \div (256 * m), 0>>
RECURSIVE Words(_)
Words(i) == IF i > Len(entries) THEN << >> ELSE Word(entries[i].h, Laid.offs[i]) \o Words(i + 1)
File == RST \o <<ver>> \o (IF ver # 2 THEN << >> ELSE IF config = << >> THEN <<0>> ELSE <<1>> \o LE(Len(config), 4) \o config)
        \o LE(Len(entries), 4) \o Words(1) \o (IF ver = 5 THEN << >> ELSE IF trenc THEN <<1>> ELSE <<0>>) \o Laid.d

RECURSIVE LastOf(_, _)
LastOf(h, i) == IF entries[i].h = h THEN entries[i] ELSE LastOf(h, i - 1)
RoundTrip == done => LET d == Decode(File, gv) IN
    /\ d.ok /\ d.sound /\ d.version = ver /\ d.bits = TheBits /\ d.hasConfig = (config # << >>) /\ d.config = Text(config)
    /\ {d.entries[i].h : i \in 1..Len(d.entries)} = {entries[i].h : i \in 1..Len(entries)}
    /\ Cardinality({d.entries[i].h : i \in 1..Len(d.entries)}) = Len(d.entries)
    /\ \A i \in 1..Len(d.entries) : LET e == LastOf(d.entries[i].h, Len(entries)) IN d.entries[i].text = IF e.enc THEN Base64(e.t) ELSE Text(e.t)
(* a cut table is refused or has entries out of its data, apart from a last string without end *)
Prefixes == done => LET f == File IN \A i \in 0..(Len(f) - Len(Laid.d) - 1) : ~Decode(SubSeq(f, 1, i), gv).ok
ASSUME Base64(<<77, 97, 110>>) = <<84, 87, 70, 117>> /\ Base64(<<77>>) = <<84, 81, 61, 61>> /\ Base64(<<255, 254>>) = <<47, 47, 52, 61>>
ASSUME Text(<<97, 146, 147, 98, 195, 169, 195>>) = <<97>> \o FFFD \o <<98, 195, 169>> \o FFFD
ASSUME Unnamed(<<1, 2, 3, 4, 63>>) = <<123, 51, 102, 48, 52, 48, 51, 48, 50, 48, 49, 125>>
EmitFile == (Emit /\ done) => PrintT("SCENARIO {\"gv\":" \o ToString(gv) \o ",\"bytes\":\"" \o ToString(File) \o "\"}")
=============================================================================
