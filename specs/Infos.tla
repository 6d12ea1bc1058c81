-------------------------------- MODULE Infos --------------------------------
(* Atlas information (of strings or of hashes), champion skins information:  *)
(* records of the files.                                                     *)
EXTENDS Bytes, FiniteSets

Have(b, p, n) == p + n - 1 <= Len(b)
At(b, p, n) == SubSeq(b, p, p + n - 1)
Finite(f) == ~(f[4] % 128 = 127 /\ f[3] >= 128)
RECURSIVE HexBig(_)
HexBig(h) == IF h = << >> THEN << >> ELSE HexBig(Tail(h)) \o <<HexCode(h[1] \div 16), HexCode(h[1] % 16)>>
NameOf(known, h) == IF \E i \in 1..Len(known) : known[i][1] = h THEN LET k == CHOOSE i \in 1..Len(known) : known[i][1] = h IN known[k][2] ELSE <<123>> \o HexBig(h) \o <<125>>
Known(known, h) == \E i \in 1..Len(known) : known[i][1] = h

(* exported name of a texture *)
Dds == <<46, 100, 100, 115>>
Tex == <<46, 116, 101, 120>>
Png == <<46, 112, 110, 103>>
Base(p) == LET s == {i \in 1..Len(p) : p[i] = 47} IN IF s = {} THEN p ELSE SubSeq(p, (CHOOSE i \in s : \A k \in s : i >= k) + 1, Len(p))
HasExt(p, e) == LET n == Base(p) IN Len(n) > 4 /\ SubSeq(n, Len(n) - 3, Len(n)) = e /\ \E i \in 1..(Len(n) - 4) : n[i] # 46
Exported(p) == LET q == Lower(p) IN IF HasExt(q, Dds) \/ HasExt(q, Tex) THEN SubSeq(q, 1, Len(q) - 4) \o Png ELSE q

Fail == [ok |-> FALSE, v |-> << >>, p |-> 0]
Ok(v, p) == [ok |-> TRUE, v |-> v, p |-> p]
(* strings prefixed by their length; whether they are UTF-8 *)
Str(b, p) == IF ~Have(b, p, 4) THEN Fail ELSE LET n == Num(At(b, p, 4)) IN IF Have(b, p + 4, n) THEN Ok(At(b, p + 4, n), p + 4 + n) ELSE Fail
Hash(b, p) == IF Have(b, p, 8) THEN Ok(At(b, p, 8), p + 8) ELSE Fail
Item(b, p, hashed) == IF hashed THEN Hash(b, p) ELSE Str(b, p)
RECURSIVE Items(_, _, _, _, _), Textures(_, _, _, _, _), SkinList(_, _, _, _), Champions(_, _, _, _)
Items(b, p, n, hashed, acc) == IF n = 0 THEN Ok(acc, p) ELSE LET r == Item(b, p, hashed) IN IF r.ok THEN Items(b, r.p, n - 1, hashed, Append(acc, r.v)) ELSE Fail
Textures(b, p, n, hashed, acc) ==
    IF n = 0 THEN Ok(acc, p)
    ELSE LET r == Item(b, p, hashed)
         IN IF r.ok /\ Have(b, r.p, 20) THEN Textures(b, r.p + 20, n - 1, hashed, Append(acc, [id |-> r.v, xy |-> At(b, r.p, 16), at |-> Num(At(b, r.p + 16, 4))])) ELSE Fail
NoAtlas == [ok |-> FALSE, sound |-> FALSE, textures |-> << >>]
IMAA == <<73, 77, 65, 65>>
LastOf(s, key(_)) == SelectSeq([i \in 1..Len(s) |-> [r |-> s[i], last |-> \A k \in (i + 1)..Len(s) : key(s[k]) # key(s[i])]], LAMBDA x : x.last)
Atlas(b, known) ==
    LET hashed == Have(b, 1, 4) /\ At(b, 1, 4) = IMAA
        p == IF hashed THEN 5 ELSE 1
        na == Num(At(b, p, 4))
        as == IF ~Have(b, p, 4) \/ na > Len(b) THEN Fail ELSE Items(b, p + 4, na, hashed, << >>)
        nt == Num(At(b, as.p, 4))
        ts == IF ~as.ok THEN Fail ELSE IF ~Have(b, as.p, 4) \/ nt > Len(b) THEN Fail ELSE Textures(b, as.p + 4, nt, hashed, << >>)
        path(a) == IF ~hashed THEN Exported(a) ELSE IF Known(known, a) THEN Exported(NameOf(known, a)) ELSE NameOf(known, a)
        rec(t) == [name |-> IF hashed THEN NameOf(known, t.id) ELSE t.id, path |-> path(as.v[t.at + 1]), xy |-> t.xy]
        sound == /\ \A i \in 1..Len(ts.v) : ts.v[i].at < Len(as.v) /\ \A k \in 0..3 : Finite(At(ts.v[i].xy, 4 * k + 1, 4))
                 /\ hashed \/ ((\A i \in 1..Len(as.v) : Utf8(as.v[i])) /\ \A i \in 1..Len(ts.v) : Utf8(ts.v[i].id))
        all == [i \in 1..Len(ts.v) |-> rec(ts.v[i])]
        kept == LastOf(all, LAMBDA t : t.name)
    IN IF ~ts.ok THEN NoAtlas
       ELSE IF ~sound THEN [NoAtlas EXCEPT !.ok = TRUE]
       ELSE [ok |-> TRUE, sound |-> TRUE, textures |-> [i \in 1..Len(kept) |-> kept[i].r]]

(* -- skins -- *)
LastSkins(s) == LET kept == LastOf(s, LAMBDA x : x.id) IN [i \in 1..Len(kept) |-> kept[i].r]
SkinList(b, p, n, acc) ==
    IF n = 0 THEN Ok(acc, p)
    ELSE IF ~Have(b, p, 5) THEN Fail
    ELSE LET r == Str(b, p + 5) IN IF r.ok THEN SkinList(b, r.p, n - 1, Append(acc, [id |-> UnsignedCodes(At(b, p, 4)), prestige |-> b[p + 4] = 4, name |-> r.v])) ELSE Fail
Champions(b, p, n, acc) ==
    IF n = 0 THEN Ok(acc, p)
    ELSE LET r == Str(b, p)
             ns == Num(At(b, r.p, 4))
             s == IF ~r.ok THEN Fail ELSE IF ~Have(b, r.p, 4) \/ ns > Len(b) THEN Fail ELSE SkinList(b, r.p + 4, ns, << >>)
         IN IF s.ok THEN Champions(b, s.p, n - 1, Append(acc, [name |-> r.v, skins |-> LastSkins(s.v), raw |-> s.v])) ELSE Fail
NoSkins == [ok |-> FALSE, sound |-> FALSE, champions |-> << >>]
MahC == <<109, 97, 104, 67>>
Skins(b) ==
    LET n == Num(At(b, 9, 4))
        r == IF ~Have(b, 9, 4) \/ n > Len(b) THEN Fail ELSE Champions(b, 13, n, << >>)
        sound == \A i \in 1..Len(r.v) : Utf8(r.v[i].name) /\ \A k \in 1..Len(r.v[i].raw) : Utf8(r.v[i].raw[k].name)
        kept == LastOf(r.v, LAMBDA x : x.name)
    IN IF ~Have(b, 1, 8) \/ At(b, 1, 8) # MahC \o <<2, 0, 0, 0>> \/ ~r.ok THEN NoSkins
       ELSE [ok |-> TRUE, sound |-> sound, champions |-> [i \in 1..Len(kept) |-> [name |-> kept[i].r.name, skins |-> kept[i].r.skins]]]
(* the same records, in any order *)
SameSet(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : \E k \in 1..Len(b) : a[i] = b[k]
SameSkins(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : \E k \in 1..Len(b) : a[i].name = b[k].name /\ SameSet(a[i].skins, b[k].skins)
=============================================================================
