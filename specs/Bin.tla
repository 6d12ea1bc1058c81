--------------------------------- MODULE Bin ---------------------------------
(* BIN files: decoding of values from bytes, for any version of files and of *)
(* type codes; JSON form; access to fields.                                  *)
(* A value is a node [t, sub, b, kids]: type, element types, raw bytes       *)
(* (hashes of names and types, numbers, texts), and nested values.           *)
EXTENDS Bytes, FiniteSets

Node(t, sub, b, kids) == [t |-> t, sub |-> sub, b |-> b, kids |-> kids]
Nil == Node("", "", << >>, << >>)
Ok(v, p) == [ok |-> TRUE, v |-> v, p |-> p]
Fail == [ok |-> FALSE, v |-> Nil, p |-> 0]

(* -- type codes; tv: version of codes, 923 for patch 9.23 -- *)
SimpleTypes == <<"EMPTY", "BOOL", "S8", "U8", "S16", "U16", "S32", "U32", "S64", "U64", "FLOAT", "VEC2_FLOAT", "VEC3_FLOAT", "VEC4_FLOAT", "MATRIX4X4", "RGBA", "STRING", "HASH">>
(* LIST2 was inserted in 10.8 *)
ComplexTypes(tv) == (IF tv < 1008 THEN <<"LIST">> ELSE <<"LIST", "LIST2">>) \o <<"STRUCT", "EMBEDDED", "LINK", "OPTION", "MAP", "FLAG">>
(* complex types were moved in 9.23 *)
FirstComplex(tv) == IF tv < 923 THEN 18 ELSE 128
TypeOf(c, tv) ==
    IF c < 18 THEN SimpleTypes[c + 1]
    ELSE IF c - FirstComplex(tv) \in 0..(Len(ComplexTypes(tv)) - 1) THEN ComplexTypes(tv)[c - FirstComplex(tv) + 1]
    ELSE IF c = 18 THEN "PATH" ELSE "?"
SizeOf(t) == CASE t \in {"BOOL", "S8", "U8", "FLAG"} -> 1
               [] t \in {"S16", "U16"} -> 2
               [] t \in {"S32", "U32", "FLOAT", "RGBA", "HASH", "LINK"} -> 4
               [] t \in {"S64", "U64", "PATH", "VEC2_FLOAT"} -> 8
               [] t = "EMPTY" -> 6 [] t = "VEC3_FLOAT" -> 12 [] t = "VEC4_FLOAT" -> 16 [] t = "MATRIX4X4" -> 64
               [] OTHER -> 0
Floats == {"FLOAT", "VEC2_FLOAT", "VEC3_FLOAT", "VEC4_FLOAT", "MATRIX4X4"}

(* numbers which are not are all the same *)
NaN == <<0, 0, 192, 127>>
OneNaN(f) == IF f[4] % 128 = 127 /\ f[3] >= 128 /\ (f[3] > 128 \/ f[2] # 0 \/ f[1] # 0) THEN NaN ELSE f
Canonical(t, b) == IF t = "BOOL" THEN IF b = <<0>> THEN b ELSE <<1>>
                   ELSE IF t \in Floats THEN [i \in 1..Len(b) |-> OneNaN(SubSeq(b, 4 * ((i - 1) \div 4) + 1, 4 * ((i - 1) \div 4) + 4))[((i - 1) % 4) + 1]]
                   ELSE b

(* a map has one value per key: the last one *)
RECURSIVE OnePerKey(_)
OnePerKey(ps) ==
    IF ps = << >> THEN << >>
    ELSE LET same == {i \in 1..Len(ps) : ps[i].kids[1] = ps[1].kids[1]}
             last == CHOOSE i \in same : \A j \in same : i >= j
             others == SelectSeq(ps, LAMBDA q : q.kids[1] # ps[1].kids[1])
         IN <<ps[last]>> \o OnePerKey(others)

(* -- decoding: readers give a value and the next position -- *)
Have(b, p, n) == p + n - 1 <= Len(b)
At(b, p, n) == SubSeq(b, p, p + n - 1)
RECURSIVE Value(_, _, _, _), Values(_, _, _, _, _, _), Fields(_, _, _, _, _), Pairs(_, _, _, _, _, _, _)
Str(b, p) == IF ~Have(b, p, 2) THEN Fail
             ELSE LET n == Num(At(b, p, 2)) IN IF Have(b, p + 2, n) /\ Utf8(At(b, p + 2, n)) THEN Ok(Node("STRING", "", At(b, p + 2, n), << >>), p + 2 + n) ELSE Fail
Value(b, p, t, tv) ==
    CASE SizeOf(t) > 0 -> IF Have(b, p, SizeOf(t)) THEN Ok(Node(t, "", Canonical(t, At(b, p, SizeOf(t))), << >>), p + SizeOf(t)) ELSE Fail
      [] t = "STRING" -> Str(b, p)
      [] t \in {"LIST", "LIST2"} ->
            IF ~Have(b, p, 9) THEN Fail
            ELSE LET vt == TypeOf(b[p], tv)  n == Num(At(b, p + 5, 4))
                     r == IF vt = "?" \/ n > Len(b) THEN Fail ELSE Values(b, p + 9, vt, n, << >>, tv)
                 IN IF r.ok THEN Ok(Node(t, vt, << >>, r.v), r.p) ELSE Fail
      [] t = "STRUCT" ->
            IF ~Have(b, p, 4) THEN Fail
            ELSE IF Zero(At(b, p, 4)) THEN Ok(Node(t, "", At(b, p, 4), << >>), p + 4)
            ELSE IF ~Have(b, p, 10) THEN Fail
            ELSE LET r == Fields(b, p + 10, Num(At(b, p + 8, 2)), << >>, tv) IN IF r.ok THEN Ok(Node(t, "", At(b, p, 4), r.v), r.p) ELSE Fail
      [] t = "EMBEDDED" ->
            IF ~Have(b, p, 10) THEN Fail
            ELSE LET r == Fields(b, p + 10, Num(At(b, p + 8, 2)), << >>, tv) IN IF r.ok THEN Ok(Node(t, "", At(b, p, 4), r.v), r.p) ELSE Fail
      [] t = "OPTION" ->
            IF ~Have(b, p, 2) THEN Fail
            ELSE LET vt == TypeOf(b[p], tv)
                     r == IF vt = "?" THEN Fail ELSE IF b[p + 1] = 0 THEN Ok(<< >>, p + 2) ELSE Values(b, p + 2, vt, 1, << >>, tv)
                 IN IF r.ok THEN Ok(Node(t, vt, << >>, r.v), r.p) ELSE Fail
      [] t = "MAP" ->
            IF ~Have(b, p, 10) THEN Fail
            ELSE LET kt == TypeOf(b[p], tv)  vt == TypeOf(b[p + 1], tv)  n == Num(At(b, p + 6, 4))
                     r == IF kt = "?" \/ vt = "?" \/ n > Len(b) THEN Fail ELSE Pairs(b, p + 10, kt, vt, n, << >>, tv)
                 IN IF r.ok THEN Ok(Node(t, kt \o "," \o vt, << >>, OnePerKey(r.v)), r.p) ELSE Fail
      [] OTHER -> Fail
Values(b, p, t, n, acc, tv) ==
    IF n = 0 THEN Ok(acc, p)
    ELSE LET r == Value(b, p, t, tv) IN IF r.ok THEN Values(b, r.p, t, n - 1, Append(acc, r.v), tv) ELSE Fail
Fields(b, p, n, acc, tv) ==
    IF n = 0 THEN Ok(acc, p)
    ELSE IF ~Have(b, p, 5) THEN Fail
    ELSE LET t == TypeOf(b[p + 4], tv)  r == IF t = "?" THEN Fail ELSE Value(b, p + 5, t, tv)
         IN IF r.ok THEN Fields(b, r.p, n - 1, Append(acc, Node("FIELD", "", At(b, p, 4), <<r.v>>)), tv) ELSE Fail
Pairs(b, p, kt, vt, n, acc, tv) ==
    IF n = 0 THEN Ok(acc, p)
    ELSE LET k == Value(b, p, kt, tv)  v == IF k.ok THEN Value(b, k.p, vt, tv) ELSE Fail
         IN IF v.ok THEN Pairs(b, v.p, kt, vt, n - 1, Append(acc, Node("PAIR", "", << >>, <<k.v, v.v>>)), tv) ELSE Fail

RECURSIVE Strs(_, _, _, _), Entries(_, _, _, _, _), Patches(_, _, _, _, _)
Strs(b, p, n, acc) == IF n = 0 THEN Ok(acc, p) ELSE LET r == Str(b, p) IN IF r.ok THEN Strs(b, r.p, n - 1, Append(acc, r.v.b)) ELSE Fail
(* types are before the entries; the length of an entry does not count itself *)
Entries(b, p, types, acc, tv) ==
    IF types = << >> THEN Ok(acc, p)
    ELSE IF ~Have(b, p, 10) THEN Fail
    ELSE LET r == Fields(b, p + 10, Num(At(b, p + 8, 2)), << >>, tv)
         IN IF r.ok /\ r.p - (p + 4) = Num(At(b, p, 4)) THEN Entries(b, r.p, Tail(types), Append(acc, Node("ENTRY", "", At(b, p + 4, 4) \o types[1], r.v)), tv) ELSE Fail
(* patches of the same entry are together *)
AddPatch(acc, h, f) ==
    LET at == {i \in 1..Len(acc) : acc[i].b = h}
    IN IF at = {} THEN Append(acc, Node("PATCH", "", h, <<f>>)) ELSE [i \in 1..Len(acc) |-> IF i \in at THEN [acc[i] EXCEPT !.kids = Append(@, f)] ELSE acc[i]]
Patches(b, p, n, acc, tv) ==
    IF n = 0 THEN Ok(acc, p)
    ELSE IF ~Have(b, p, 9) THEN Fail
    ELSE LET t == TypeOf(b[p + 8], tv)  s == IF t = "?" THEN Fail ELSE Str(b, p + 9)  r == IF s.ok THEN Value(b, s.p, t, tv) ELSE Fail
         IN IF r.ok THEN Patches(b, r.p, n - 1, AddPatch(acc, At(b, p, 4), Node("PFIELD", "", s.v.b, <<r.v>>)), tv) ELSE Fail

NoFile == [ok |-> FALSE, version |-> << >>, linked |-> << >>, entries |-> << >>, patches |-> << >>, hasLinked |-> FALSE, hasPatches |-> FALSE]
PTCH == <<80, 84, 67, 72>>
PROP == <<80, 82, 79, 80>>
Decode(b, tv) ==
    LET patch == Len(b) >= 4 /\ SubSeq(b, 1, 4) = PTCH
        m == IF patch THEN 13 ELSE 1
        v == At(b, m + 4, 4)
        new == Num(v) >= 2
        nl == IF new THEN Num(At(b, m + 8, 4)) ELSE 0
        li == IF ~new THEN Ok(<< >>, m + 8) ELSE IF ~Have(b, m + 8, 4) \/ nl > Len(b) THEN Fail ELSE Strs(b, m + 12, nl, << >>)
        ne == Num(At(b, li.p, 4))
        head == li.ok /\ Have(b, li.p, 4) /\ ne <= Len(b) /\ Have(b, li.p + 4, 4 * ne)
        es == IF ~head THEN Fail ELSE Entries(b, li.p + 4 + 4 * ne, [i \in 1..ne |-> At(b, li.p + 4 * i, 4)], << >>, tv)
        hp == patch /\ Num(v) >= 3
        np == IF es.ok THEN Num(At(b, es.p, 4)) ELSE 0
        ps == IF ~hp THEN Ok(<< >>, es.p) ELSE IF ~Have(b, es.p, 4) \/ np > Len(b) THEN Fail ELSE Patches(b, es.p + 4, np, << >>, tv)
    IN IF ~Have(b, m, 8) \/ (patch /\ At(b, 5, 8) # <<1, 0, 0, 0, 0, 0, 0, 0>>) \/ At(b, m, 4) # PROP \/ ~li.ok \/ ~es.ok \/ ~ps.ok THEN NoFile
       ELSE [ok |-> TRUE, version |-> v, linked |-> li.v, entries |-> es.v, patches |-> ps.v, hasLinked |-> new, hasPatches |-> hp]

(* -- JSON form: [j, b, s, kids]; names: known hashes and their names -- *)
J(j, b, s, kids) == [j |-> j, b |-> b, s |-> s, kids |-> kids]
NameOf(list, h) == IF \E i \in 1..Len(list) : list[i][1] = h THEN LET k == CHOOSE i \in 1..Len(list) : list[i][1] = h IN list[k][2]
                   ELSE <<123>> \o HexBytes(h) \o <<125>>
Quads(b) == [i \in 1..(Len(b) \div 4) |-> SubSeq(b, 4 * i - 3, 4 * i)]
Of(k, ks) == J("pair", k, "", <<ks>>)
RECURSIVE OneName(_)
OneName(ps) ==
    IF ps = << >> THEN << >>
    ELSE LET same == {i \in 1..Len(ps) : ps[i].b = ps[1].b}  last == CHOOSE i \in same : \A j \in same : i >= j
         IN <<ps[last]>> \o OneName(SelectSeq(ps, LAMBDA q : q.b # ps[1].b))
Obj(ps) == J("obj", << >>, "", OneName(ps))
Ints(b, k) == J("arr", << >>, "", [i \in 1..(Len(b) \div k) |-> J("int", << >>, Unsigned(SubSeq(b, k * (i - 1) + 1, k * i)), << >>)])
FloatsOf(b) == J("arr", << >>, "", [i \in 1..(Len(b) \div 4) |-> J("float", Quads(b)[i], "", << >>)])
TypeNode(h, names) == Of(<<95, 95, 116, 121, 112, 101>>, J("str", NameOf(names.types, h), "", << >>))
(* text of keys; other types of keys are not defined *)
KeyTypes == {"STRING", "HASH", "PATH", "LINK", "S8", "U8", "S16", "U16", "S32", "U32", "S64", "U64", "FLAG"}
KeyOf(v, names) == CASE v.t = "STRING" -> v.b
                     [] v.t = "HASH" -> NameOf(names.hashes, v.b)
                     [] v.t = "LINK" -> NameOf(names.entries, v.b)
                     [] v.t = "PATH" -> NameOf(names.paths, v.b)
                     [] v.t \in {"S8", "S16", "S32", "S64"} -> SignedCodes(v.b)
                     [] OTHER -> UnsignedCodes(v.b)
RECURSIVE Json(_, _)
FieldsOf(fs, names) == [i \in 1..Len(fs) |-> Of(NameOf(names.fields, fs[i].b), Json(fs[i].kids[1], names))]
Json(v, names) ==
    CASE v.t = "BOOL" -> J(IF v.b = <<0>> THEN "false" ELSE "true", << >>, "", << >>)
      [] v.t = "EMPTY" -> Ints(v.b, 2)
      [] v.t = "RGBA" -> Ints(v.b, 1)
      [] v.t \in {"U8", "U16", "U32", "U64", "FLAG"} -> J("int", << >>, Unsigned(v.b), << >>)
      [] v.t \in {"S8", "S16", "S32", "S64"} -> J("int", << >>, Signed(v.b), << >>)
      [] v.t = "FLOAT" -> J("float", v.b, "", << >>)
      [] v.t \in {"VEC2_FLOAT", "VEC3_FLOAT", "VEC4_FLOAT"} -> FloatsOf(v.b)
      [] v.t = "MATRIX4X4" -> J("arr", << >>, "", [i \in 1..4 |-> FloatsOf(SubSeq(v.b, 16 * i - 15, 16 * i))])
      [] v.t = "STRING" -> J("str", v.b, "", << >>)
      [] v.t \in {"HASH", "LINK", "PATH"} -> J("str", KeyOf(v, names), "", << >>)
      [] v.t \in {"LIST", "LIST2"} -> J("arr", << >>, "", [i \in 1..Len(v.kids) |-> Json(v.kids[i], names)])
      [] v.t = "OPTION" -> IF v.kids = << >> THEN J("null", << >>, "", << >>) ELSE Json(v.kids[1], names)
      [] v.t = "STRUCT" /\ Zero(v.b) -> J("null", << >>, "", << >>)
      [] v.t \in {"STRUCT", "EMBEDDED"} -> Obj(FieldsOf(v.kids, names) \o <<TypeNode(v.b, names)>>)
      [] v.t = "MAP" -> IF \E i \in 1..Len(v.kids) : v.kids[i].kids[1].t \notin KeyTypes THEN J("any", << >>, "", << >>)
                        ELSE Obj([i \in 1..Len(v.kids) |-> Of(KeyOf(v.kids[i].kids[1], names), Json(v.kids[i].kids[2], names))])
JsonFile(d, names) ==
    LET es == [i \in 1..Len(d.entries) |-> Of(NameOf(names.entries, SubSeq(d.entries[i].b, 1, 4)), Obj(FieldsOf(d.entries[i].kids, names) \o <<TypeNode(SubSeq(d.entries[i].b, 5, 8), names)>>))]
        li == IF d.hasLinked THEN <<Of(<<95, 95, 108, 105, 110, 107, 101, 100>>, J("arr", << >>, "", [i \in 1..Len(d.linked) |-> J("str", d.linked[i], "", << >>)]))>> ELSE << >>
        pf(e) == [k \in 1..Len(e.kids) |-> Of(e.kids[k].b, Json(e.kids[k].kids[1], names))]
        ps == IF d.hasPatches THEN <<Of(<<95, 95, 112, 97, 116, 99, 104, 101, 115>>, Obj([i \in 1..Len(d.patches) |-> Of(NameOf(names.entries, d.patches[i].b), Obj(pf(d.patches[i])))]))>> ELSE << >>
    IN Obj(es \o li \o ps)
(* objects are not ordered *)
RECURSIVE Same(_, _)
Same(x, y) == \/ x.j = "any"
              \/ x.j = y.j /\ x.b = y.b /\ x.s = y.s /\ Len(x.kids) = Len(y.kids)
                 /\ IF x.j = "obj" THEN \A i \in 1..Len(x.kids) : \E k \in 1..Len(y.kids) : Same(x.kids[i], y.kids[k])
                    ELSE \A i \in 1..Len(x.kids) : Same(x.kids[i], y.kids[i])

(* -- access -- *)
FieldAt(hashes, h) == LET at == {i \in 1..Len(hashes) : hashes[i] = h} IN IF at = {} THEN 0 ELSE CHOOSE i \in at : \A k \in at : i <= k
=============================================================================
