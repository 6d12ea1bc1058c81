-------------------------------- MODULE Wad --------------------------------
(* WAD archives: header and entries as bytes, contents as stored blobs.      *)
(* blobs: sequence of <<offset, length, how, hash of the bytes, content>>;   *)
(* 64-bit numbers are texts of 16 hexadecimal digits.                        *)
EXTENDS Naturals, Sequences, FiniteSets

RangeOf(s) == {s[i] : i \in 1..Len(s)}
HexDigits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Hex2(b) == HexDigits[(b \div 16) + 1] \o HexDigits[(b % 16) + 1]
(* little-endian integers of a byte sequence, i: index of the first byte     *)
U16(s, i) == s[i] + 256 * s[i + 1]
U32(s, i) == U16(s, i) + 65536 * U16(s, i + 2)
Hex64(s, i) == Hex2(s[i + 7]) \o Hex2(s[i + 6]) \o Hex2(s[i + 5]) \o Hex2(s[i + 4]) \o Hex2(s[i + 3]) \o Hex2(s[i + 2]) \o Hex2(s[i + 1]) \o Hex2(s[i])

CountAt(major) == CASE major = 1 -> 9 [] major = 2 -> 101 [] major = 3 -> 269
EntrySize(major) == IF major = 1 THEN 24 ELSE 32
Major(s) == s[3]
Minor(s) == s[4]
IsWad(s) == Len(s) >= 4 /\ s[1] = 82 /\ s[2] = 87 /\ Major(s) \in {1, 2, 3}
Complete(s) == LET n == CountAt(Major(s)) IN Len(s) >= n + 3 /\ Len(s) >= n + 3 + U32(s, n) * EntrySize(Major(s))
Count(s) == U32(s, CountAt(Major(s)))

Entry(s, k) ==
    LET i == CountAt(Major(s)) + 4 + (k - 1) * EntrySize(Major(s))
        ext == Major(s) > 1
        t == IF ext THEN s[i + 20] ELSE U32(s, i + 20)
    IN [h |-> Hex64(s, i), off |-> U32(s, i + 8), csize |-> U32(s, i + 12), size |-> U32(s, i + 16),
        type |-> t % 16, nsub |-> (t % 256) \div 16,
        dup |-> ext /\ ~(Major(s) = 3 /\ Minor(s) > 3) /\ s[i + 21] # 0,
        first |-> IF ~ext THEN 0 ELSE U16(s, i + 22) + (IF Major(s) = 3 /\ Minor(s) > 3 THEN 65536 * s[i + 21] ELSE 0),
        sum |-> IF ext THEN Hex64(s, i + 24) ELSE "none"]
Entries(s) == [k \in 1..Count(s) |-> Entry(s, k)]

(* content of an entry: [ok, none, data]; ok FALSE: reading it is an error;  *)
(* none TRUE: it has no readable content                                     *)
Data(d) == [ok |-> TRUE, none |-> FALSE, data |-> d]
None == [ok |-> TRUE, none |-> TRUE, data |-> << >>]
Error == [ok |-> FALSE, none |-> TRUE, data |-> << >>]

BlobAt(blobs, off, len, hows) == {b \in RangeOf(blobs) : b[1] = off /\ b[2] = len /\ b[3] \in hows}

(* subchunks from the n-th, located by the table: toc maps the text of an    *)
(* index to <<compressed size, size, hash>>                                  *)
RECURSIVE Subchunks(_, _, _, _, _, _)
Subchunks(e, blobs, toc, Txt(_), n, off) ==
    IF n = e.nsub THEN Data(<< >>)
    ELSE LET k == Txt(e.first + n)
         IN IF k \notin DOMAIN toc THEN None
            ELSE LET r == toc[k]
                     bs == {b \in BlobAt(blobs, off, r[1], {"raw", "zstd"}) : b[4] = r[3]}
                 IN IF bs = {} \/ off + r[1] > e.off + e.csize THEN None
                    ELSE LET b == CHOOSE b \in bs : TRUE
                             rest == Subchunks(e, blobs, toc, Txt, n + 1, off + r[1])
                         IN IF rest.none THEN None ELSE Data(b[5] \o rest.data)

(* without table: all subchunks have to be compressed                        *)
RECURSIVE Frames(_, _, _)
Frames(blobs, off, end) ==
    IF off = end THEN Data(<< >>)
    ELSE LET bs == {b \in RangeOf(blobs) : b[1] = off /\ b[2] > 0 /\ b[3] = "zstd" /\ off + b[2] <= end}
         IN IF bs = {} THEN None
            ELSE LET b == CHOOSE b \in bs : TRUE
                     rest == Frames(blobs, off + b[2], end)
                 IN IF rest.none THEN None ELSE Data(b[5] \o rest.data)

Single(e, blobs, how) == LET bs == BlobAt(blobs, e.off, e.csize, {how}) IN IF bs = {} THEN Error ELSE Data((CHOOSE b \in bs : TRUE)[5])
Content(e, blobs, hasToc, toc, Txt(_)) ==
    CASE e.type = 0 -> Single(e, blobs, "raw")
      [] e.type = 1 -> Single(e, blobs, "gz")
      [] e.type = 2 -> None
      [] e.type = 3 -> Single(e, blobs, "zstd")
      [] e.type = 4 -> IF hasToc THEN Subchunks(e, blobs, toc, Txt, 0, e.off)
                       ELSE IF e.csize = 0 THEN None ELSE Frames(blobs, e.off, e.off + e.csize)
      [] OTHER -> Error
=============================================================================
