--------------------------------- MODULE Rst ---------------------------------
(* String tables: decoding from bytes for any version of files and of the    *)
(* game, names of entries, lookups.                                          *)
EXTENDS Bytes, FiniteSets

(* width of hashes: 40 bits, then 39 (version 4), then 38 (from 15.2) *)
Bits(version, gv) == IF version < 4 THEN 40 ELSE IF gv < 1502 THEN 39 ELSE 38
Pow(bits) == CASE bits = 40 -> 256 [] bits = 39 -> 128 [] OTHER -> 64
(* 64-bit number -> 5 bytes of hash *)
Trunc(q, bits) == [i \in 1..5 |-> IF i = 5 THEN q[5] % Pow(bits) ELSE q[i]]
OffsetOf(q, bits) == (256 \div Pow(bits)) * (q[6] + 256 * q[7] + 65536 * q[8]) + q[5] \div Pow(bits)

(* -- text: bytes which are not UTF-8 are replaced; the number of replacements is not specified -- *)
FFFD == <<239, 191, 189>>
SeqLen(b) == IF b[1] < 128 THEN 1 ELSE IF b[1] \in 194..223 THEN 2 ELSE IF b[1] \in 224..239 THEN 3 ELSE IF b[1] \in 240..244 THEN 4 ELSE 0
ValidHead(b) == LET n == SeqLen(b) IN n > 0 /\ Len(b) >= n /\ Utf8(SubSeq(b, 1, n))
RECURSIVE Norm(_, _)
Norm(b, acc) ==
    IF b = << >> THEN acc
    ELSE LET n == IF ValidHead(b) THEN SeqLen(b) ELSE 1
             ch == IF ValidHead(b) THEN SubSeq(b, 1, n) ELSE FFFD
             again == ch = FFFD /\ Len(acc) >= 3 /\ SubSeq(acc, Len(acc) - 2, Len(acc)) = FFFD
         IN Norm(SubSeq(b, n + 1, Len(b)), IF again THEN acc ELSE acc \o ch)
Text(b) == Norm(b, << >>)

(* -- base64 -- *)
Digit64(n) == IF n < 26 THEN 65 + n ELSE IF n < 52 THEN 71 + n ELSE IF n < 62 THEN n - 4 ELSE IF n = 62 THEN 43 ELSE 47
RECURSIVE Base64(_)
Base64(b) ==
    IF b = << >> THEN << >>
    ELSE LET x == 65536 * b[1] + (IF Len(b) > 1 THEN 256 * b[2] ELSE 0) + (IF Len(b) > 2 THEN b[3] ELSE 0)
             d(k) == Digit64(CASE k = 1 -> x \div 262144 [] k = 2 -> (x \div 4096) % 64 [] k = 3 -> (x \div 64) % 64 [] OTHER -> x % 64)
         IN <<d(1), d(2), IF Len(b) > 1 THEN d(3) ELSE 61, IF Len(b) > 2 THEN d(4) ELSE 61>> \o Base64(SubSeq(b, 4, Len(b)))

(* -- decoding -- *)
Have(b, p, n) == p + n - 1 <= Len(b)
At(b, p, n) == SubSeq(b, p, p + n - 1)
Nothing == [ok |-> FALSE, sound |-> FALSE, version |-> 0, bits |-> 0, hasConfig |-> FALSE, config |-> << >>, entries |-> << >>]
Until0(b, p) == IF p > Len(b) THEN << >>
                ELSE LET ends == {i \in p..Len(b) : b[i] = 0} IN SubSeq(b, p, IF ends = {} THEN Len(b) ELSE (CHOOSE i \in ends : \A k \in ends : i <= k) - 1)
(* an entry: its hash, its text; defined is FALSE for entries out of the data *)
Entry(q, bits, trenc, b, start) ==
    LET p == start + OffsetOf(q, bits)
        n == 256 * b[p + 2] + b[p + 1]
        enc == trenc /\ p <= Len(b) /\ b[p] = 255
    IN IF p > Len(b) THEN [h |-> Trunc(q, bits), text |-> << >>, defined |-> FALSE]
       ELSE IF enc /\ (~Have(b, p, 3) \/ ~Have(b, p + 3, b[p + 1] + 256 * b[p + 2])) THEN [h |-> Trunc(q, bits), text |-> << >>, defined |-> FALSE]
       ELSE IF enc THEN [h |-> Trunc(q, bits), text |-> Base64(At(b, p + 3, b[p + 1] + 256 * b[p + 2])), defined |-> TRUE]
       ELSE [h |-> Trunc(q, bits), text |-> Text(Until0(b, p)), defined |-> TRUE]
(* the last entry of a hash *)
LastOnes(es) == SelectSeq([i \in 1..Len(es) |-> [e |-> es[i], last |-> \A k \in (i + 1)..Len(es) : es[k].h # es[i].h]], LAMBDA x : x.last)
RST == <<82, 83, 84>>
Decode(b, gv) ==
    LET v == b[4]
        flag == v = 2 /\ Have(b, 5, 1) /\ b[5] # 0
        nc == IF flag /\ Have(b, 6, 4) THEN Num(At(b, 6, 4)) ELSE 0
        head == ~flag \/ (Have(b, 6, 4) /\ Have(b, 10, nc))
        p == IF v # 2 THEN 5 ELSE IF flag THEN 10 + nc ELSE 6
        n == Num(At(b, p, 4))
        q == p + 4 + 8 * n
        start == IF v < 5 THEN q + 1 ELSE q
        trenc == v < 5 /\ b[q] # 0
        all == [i \in 1..n |-> Entry(At(b, p + 4 + 8 * (i - 1), 8), Bits(v, gv), trenc, b, start)]
        kept == LastOnes(all)
    IN IF ~Have(b, 1, 4) \/ SubSeq(b, 1, 3) # RST THEN Nothing
       ELSE IF v \notin 2..5 \/ (v = 2 /\ ~Have(b, 5, 1)) \/ ~head \/ ~Have(b, p, 4) \/ n > Len(b) \/ ~Have(b, p + 4, 8 * n) \/ ~Have(b, 1, start - 1) THEN Nothing
       ELSE [ok |-> TRUE, sound |-> \A i \in 1..n : all[i].defined, version |-> v, bits |-> Bits(v, gv),
             hasConfig |-> flag, config |-> IF flag THEN Text(At(b, 10, nc)) ELSE << >>, entries |-> [i \in 1..Len(kept) |-> kept[i].e]]
(* entries with the same text for the same hash, in any order *)
SameEntries(es, got) ==
    /\ Len(es) = Len(got)
    /\ \A i \in 1..Len(es) : \E k \in 1..Len(got) : got[k].h = es[i].h /\ (es[i].defined => Text(got[k].text) = es[i].text)

(* -- names: known names with the hash they have for that version of the game -- *)
NamesOf(known, h, bits) == {known[i][2] : i \in {i \in 1..Len(known) : Trunc(known[i][1], bits) = h}}
BigEndian5(h) == Rev(h)
RECURSIVE Hexes(_)
Hexes(b) == IF b = << >> THEN << >> ELSE <<HexCode(b[1] \div 16), HexCode(b[1] % 16)>> \o Hexes(Tail(b))
Unnamed(h) == <<123>> \o Hexes(BigEndian5(h)) \o <<125>>
KeysOf(known, h, bits) == IF NamesOf(known, h, bits) = {} THEN {Unnamed(h)} ELSE NamesOf(known, h, bits)
=============================================================================
