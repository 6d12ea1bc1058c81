------------------------------- MODULE MC_Wad -------------------------------
(* Archives of up to N entries of every kind, written in each format version *)
(* (header bytes, stored blobs, subchunk table), possibly with one damaged   *)
(* entry: decoding gives back the entries, reading gives back the contents,  *)
(* and a damage makes its own entry only unreadable.                         *)
EXTENDS Wad, TLC, Json
CONSTANTS N, MaxSubs, Emit
VARIABLES ver, es, hasToc, damage, done
vars == <<ver, es, hasToc, damage, done>>
Vers == {<<1, 0>>, <<2, 0>>, <<3, 0>>, <<3, 3>>, <<3, 4>>}
Subs == UNION {[1..n -> {"raw", "zstd"}] : n \in 1..MaxSubs}
Init == ver \in Vers /\ es = << >> /\ hasToc \in BOOLEAN /\ damage = <<0, "">> /\ done = FALSE
Add == /\ ~done /\ Len(es) < N
       /\ \/ \E k \in {"raw", "gz", "zstd", "redir"} : es' = Append(es, [kind |-> k, subs |-> << >>])
          \/ ver[1] > 1 /\ \E s \in Subs : es' = Append(es, [kind |-> "sub", subs |-> s])
       /\ UNCHANGED <<ver, hasToc, damage, done>>
Finish == /\ ~done /\ es # << >> /\ done' = TRUE
          /\ \/ UNCHANGED damage
             \/ \E i \in 1..Len(es), d \in {"hash", "size", "missing"} : es[i].kind = "sub" /\ damage' = <<i, d>>
          /\ UNCHANGED <<ver, es, hasToc>>
Next == Add \/ Finish

(* writing                                                                   *)
Txts == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14", "15">>
Txt(i) == Txts[i + 1]
HashOf(off) == Hex64(<<off % 256, off \div 256, 7, 7, 7, 7, 7, 7>>, 1)
HashBytes(k) == <<k, 2, 3, 4, 5, 6, 171, 205>>
Parts(e) == IF e.kind = "sub" THEN e.subs ELSE <<e.kind>>
LenOf(how) == CASE how = "raw" -> 2 [] how = "gz" -> 4 [] how = "zstd" -> 3 [] how = "redir" -> 6
RECURSIVE Sum(_)
Sum(s) == IF s = << >> THEN 0 ELSE LenOf(s[1]) + Sum(Tail(s))
RECURSIVE OffOf(_)
Base == CountAt(ver[1]) + 3 + Len(es) * EntrySize(ver[1])
OffOf(k) == IF k = 1 THEN Base ELSE OffOf(k - 1) + Sum(Parts(es[k - 1]))
Plain(k, j) == IF es[k].kind = "redir" THEN << >> ELSE IF Parts(es[k])[j] = "raw" THEN <<k, j>> ELSE <<k, j, k, j, k>>
BlobsOf(k) == LET ps == Parts(es[k]) IN
    [j \in 1..Len(ps) |-> LET o == OffOf(k) + Sum(SubSeq(ps, 1, j - 1)) IN <<o, LenOf(ps[j]), ps[j], HashOf(o), Plain(k, j)>>]
RECURSIVE AllBlobs(_)
AllBlobs(k) == IF k > Len(es) THEN << >> ELSE BlobsOf(k) \o AllBlobs(k + 1)
RECURSIVE FirstSub(_)
FirstSub(k) == IF k = 1 THEN 0 ELSE FirstSub(k - 1) + Len(es[k - 1].subs)
TocIdx == UNION {{<<k, j>> : j \in 1..Len(es[k].subs)} : k \in 1..Len(es)}
Rec(k, j) == LET b == BlobsOf(k)[j] IN
    <<IF damage = <<k, "size">> /\ j = 1 THEN b[2] + 1 ELSE b[2], Len(b[5]), IF damage = <<k, "hash">> /\ j = 1 THEN "x" ELSE b[4]>>
TocPairs == {<<Txt(FirstSub(p[1]) + p[2] - 1), Rec(p[1], p[2])>> : p \in {p \in TocIdx : ~(damage = <<p[1], "missing">> /\ p[2] = Len(es[p[1]].subs))}}
Toc == [t \in {p[1] : p \in TocPairs} |-> (CHOOSE p \in TocPairs : p[1] = t)[2]]
B2(n) == <<n % 256, n \div 256>>
B4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, 0>>
Type(e) == (CASE e.kind = "raw" -> 0 [] e.kind = "gz" -> 1 [] e.kind = "redir" -> 2 [] e.kind = "zstd" -> 3 [] e.kind = "sub" -> 4) + 16 * Len(e.subs)
RECURSIVE SizeOf(_, _)
SizeOf(k, j) == IF j > Len(Parts(es[k])) THEN 0 ELSE Len(Plain(k, j)) + SizeOf(k, j + 1)
EntryBytes(k) ==
    LET common == HashBytes(k) \o B4(OffOf(k)) \o B4(Sum(Parts(es[k]))) \o B4(SizeOf(k, 1)) IN
    IF ver[1] = 1 THEN common \o B4(Type(es[k]))
    ELSE common \o <<Type(es[k]), 0>> \o B2(FirstSub(k)) \o HashBytes(k + 100)
RECURSIVE Table(_)
Table(k) == IF k > Len(es) THEN << >> ELSE EntryBytes(k) \o Table(k + 1)
Header == <<82, 87, ver[1], ver[2]>> \o [i \in 1..(CountAt(ver[1]) - 5) |-> 9] \o B4(Len(es)) \o Table(1)

RECURSIVE Whole(_, _)
Whole(k, j) == IF j > Len(Parts(es[k])) THEN << >> ELSE Plain(k, j) \o Whole(k, j + 1)
Decodes == done =>
    /\ IsWad(Header) /\ Complete(Header) /\ Count(Header) = Len(es)
    /\ \A k \in 1..Len(es) : LET e == Entries(Header)[k] IN
         /\ e.h = Hex64(HashBytes(k), 1) /\ e.off = OffOf(k) /\ e.csize = Sum(Parts(es[k])) /\ e.size = SizeOf(k, 1)
         /\ e.nsub = Len(es[k].subs) /\ (ver[1] > 1 => e.first = FirstSub(k) /\ e.sum = Hex64(HashBytes(k + 100), 1))
Reads == done =>
    \A k \in 1..Len(es) : LET r == Content(Entries(Header)[k], AllBlobs(1), hasToc, Toc, Txt) IN
        /\ r.ok
        /\ r.none = \/ es[k].kind = "redir"
                    \/ hasToc /\ damage[1] = k
                    \/ ~hasToc /\ "raw" \in RangeOf(es[k].subs)
        /\ ~r.none => r.data = Whole(k, 1)
EmitWad == (Emit /\ done) => PrintT("SCENARIO " \o ToJson([ver |-> ver, es |-> es, toc |-> hasToc, damage |-> damage]))
=============================================================================
