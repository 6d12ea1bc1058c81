-------------------------------- MODULE Mesh --------------------------------
(* Meshes: decoding from bytes and conversion to one file per submesh        *)
EXTENDS Bytes, FiniteSets

Have(b, p, n) == p + n - 1 <= Len(b)
At(b, p, n) == SubSeq(b, p, p + n - 1)
(* numbers which are not are all the same *)
OneNaN(f) == IF f[4] % 128 = 127 /\ f[3] >= 128 /\ (f[3] > 128 \/ f[2] # 0 \/ f[1] # 0) THEN <<0, 0, 192, 127>> ELSE f
RECURSIVE Floats(_)
Floats(b) == IF b = << >> THEN << >> ELSE OneNaN(At(b, 1, 4)) \o Floats(SubSeq(b, 5, Len(b)))

(* types of vertices: 1 has a color, 2 a color and a tangent *)
ColorSize(t) == IF t >= 1 THEN 4 ELSE 0
TangentSize(t) == IF t = 2 THEN 16 ELSE 0
VertexSize(t) == 52 + ColorSize(t) + TangentSize(t)
Vertex(b, p, t) == [pos |-> Floats(At(b, p, 12)), bones |-> At(b, p + 12, 4), weight |-> Floats(At(b, p + 16, 16)), normal |-> Floats(At(b, p + 32, 12)), uv |-> Floats(At(b, p + 44, 8)),
                    color |-> At(b, p + 52, ColorSize(t)), tangent |-> Floats(At(b, p + 52 + ColorSize(t), TangentSize(t)))]
Cut0(b) == LET z == {i \in 1..Len(b) : b[i] = 0} IN IF z = {} THEN b ELSE SubSeq(b, 1, (CHOOSE i \in z : \A k \in z : i <= k) - 1)
SafeName(n) == Utf8(n) /\ \A i \in 1..Len(n) : n[i] # 47
Unknown == <<85, 110, 107, 110, 111, 119, 110>>
NoMesh == [ok |-> FALSE, sound |-> FALSE, subs |-> << >>]
(* a submesh: its vertices, and the indices of its triangles, from 1 *)
Sub(name, vs, ix, sv, nv, si, ni) ==
    LET sound == sv + nv <= Len(vs) /\ si + ni <= Len(ix) /\ ni % 3 = 0 /\ \A i \in (si + 1)..(IF si + ni <= Len(ix) THEN si + ni ELSE 0) : ix[i] \in sv..(sv + nv - 1)
    IN [name |-> name, sound |-> sound, verts |-> IF sound THEN SubSeq(vs, sv + 1, sv + nv) ELSE << >>,
        idx |-> IF sound THEN [i \in 1..ni |-> ix[si + i] - sv + 1] ELSE << >>]
Decode(b) ==
    LET ver == Num(At(b, 5, 2))
        ns == IF ver = 0 THEN 0 ELSE Num(At(b, 9, 4))
        o(i) == 13 + 80 * (i - 1)
        h == IF ver = 0 THEN 9 ELSE 13 + 80 * ns + (IF ver = 4 THEN 4 ELSE 0)
        ni == Num(At(b, h, 4))
        nv == Num(At(b, h + 4, 4))
        vt == IF ver = 4 THEN Num(At(b, h + 12, 4)) ELSE 0
        pi == IF ver = 4 THEN h + 56 ELSE h + 8
        pv == pi + 2 * ni
        vs == [i \in 1..nv |-> Vertex(b, pv + VertexSize(vt) * (i - 1), vt)]
        ix == [i \in 1..ni |-> Num(At(b, pi + 2 * (i - 1), 2))]
        subs == IF ver = 0 THEN <<Sub(Unknown, vs, ix, 0, nv, 0, ni)>>
                ELSE [i \in 1..ns |-> Sub(Cut0(At(b, o(i), 64)), vs, ix, Num(At(b, o(i) + 64, 4)), Num(At(b, o(i) + 68, 4)), Num(At(b, o(i) + 72, 4)), Num(At(b, o(i) + 76, 4)))]
    IN IF ~Have(b, 1, 8) \/ At(b, 1, 4) # <<51, 34, 17, 0>> THEN NoMesh
       ELSE IF ver > 0 /\ (~Have(b, 9, 4) \/ ns > Len(b) \/ ~Have(b, 13, 80 * ns)) THEN NoMesh
       ELSE IF ver > 0 /\ \E i \in 1..ns : ~SafeName(Cut0(At(b, o(i), 64))) THEN NoMesh
       ELSE IF ~Have(b, h, pi - h) \/ ni > Len(b) \/ nv > Len(b) \/ ~Have(b, pi, 2 * ni) \/ ~Have(b, pv, VertexSize(vt) * nv) THEN NoMesh
       ELSE [ok |-> TRUE, sound |-> \A i \in 1..Len(subs) : subs[i].sound, subs |-> subs]

(* -- files: v, vt and vn lines, and f lines as 9 numbers -- *)
OfSub(s) == [v |-> [i \in 1..Len(s.verts) |-> s.verts[i].pos], vt |-> [i \in 1..Len(s.verts) |-> s.verts[i].uv], vn |-> [i \in 1..Len(s.verts) |-> s.verts[i].normal],
             f |-> [i \in 1..(Len(s.idx) \div 3) |-> [k \in 1..9 |-> s.idx[3 * (i - 1) + ((k - 1) \div 3) + 1]]]]
FileName(s) == s.name \o <<46, 111, 98, 106>>
Names(subs) == {FileName(subs[i]) : i \in 1..Len(subs)}
=============================================================================
