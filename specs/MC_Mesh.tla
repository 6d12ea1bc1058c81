------------------------------- MODULE MC_Mesh -------------------------------
(* Meshes written for each version decode to what was written                *)
EXTENDS Mesh, TLC
CONSTANTS MaxSubs, Sizes, Emit
VARIABLES subs, ver, vt, order, done
vars == <<subs, ver, vt, order, done>>

(* a submesh is defined by its number of vertices and the indices of its triangles; order: of submeshes in the data *)
Tris(n) == IF n = 0 THEN {<< >>} ELSE {<< >>, <<1, n, 1>>, <<n, 1, 1, 1, 1, n>>}
Init == subs = << >> /\ done = FALSE /\ ver \in {0, 1, 2, 4} /\ vt \in (IF ver = 4 THEN 0..3 ELSE {0}) /\ order \in {"forward", "backward"}
Add == /\ ~done /\ Len(subs) < (IF ver = 0 THEN 1 ELSE MaxSubs) /\ UNCHANGED <<ver, vt, order, done>>
       /\ \E n \in Sizes : \E t \in Tris(n) : subs' = Append(subs, [n |-> n, idx |-> t])
Finish == ~done /\ done' = TRUE /\ UNCHANGED <<subs, ver, vt, order>> /\ (ver = 0 => Len(subs) = 1)
Next == Add \/ Finish

Perm(i) == IF order = "forward" THEN i ELSE Len(subs) + 1 - i
(* numbers of vertices and of indices before the k-th submesh of the data *)
RECURSIVE BeforeV(_), BeforeI(_)
BeforeV(k) == IF k <= 1 THEN 0 ELSE subs[Perm(k - 1)].n + BeforeV(k - 1)
BeforeI(k) == IF k <= 1 THEN 0 ELSE Len(subs[Perm(k - 1)].idx) + BeforeI(k - 1)
Start(i) == BeforeV(Perm(i))
StartI(i) == BeforeI(Perm(i))
TotalV == BeforeV(Len(subs) + 1)
TotalI == BeforeI(Len(subs) + 1)
VertexBytes(k) == [i \in 1..VertexSize(vt) |-> IF i % 4 = 0 THEN 63 ELSE (k * 7 + i) % 250]
Name(i) == <<96 + i>>
RECURSIVE Headers(_), Indices(_, _), Vertices(_)
Headers(i) == IF i > Len(subs) THEN << >>
              ELSE Name(i) \o [k \in 1..63 |-> IF k = 1 THEN 0 ELSE 90] \o LE(Start(i), 4) \o LE(subs[i].n, 4) \o LE(StartI(i), 4) \o LE(Len(subs[i].idx), 4) \o Headers(i + 1)
Indices(k, j) == IF k > Len(subs) THEN << >>
                 ELSE IF j > Len(subs[Perm(k)].idx) THEN Indices(k + 1, 1)
                 ELSE LE(subs[Perm(k)].idx[j] - 1 + Start(Perm(k)), 2) \o Indices(k, j + 1)
Vertices(k) == IF k > TotalV THEN << >> ELSE VertexBytes(k) \o Vertices(k + 1)
File == <<51, 34, 17, 0>> \o LE(ver, 2) \o LE(1, 2)
        \o (IF ver = 0 THEN << >> ELSE LE(Len(subs), 4) \o Headers(1) \o (IF ver = 4 THEN LE(0, 4) ELSE << >>))
        \o LE(TotalI, 4) \o LE(TotalV, 4) \o (IF ver = 4 THEN LE(VertexSize(vt), 4) \o LE(vt, 4) \o [i \in 1..40 |-> i] ELSE << >>)
        \o Indices(1, 1) \o Vertices(1)
RoundTrip == done => LET d == Decode(File) IN
    /\ d.ok /\ d.sound /\ Len(d.subs) = Len(subs)
    /\ \A i \in 1..Len(subs) : /\ d.subs[i].name = (IF ver = 0 THEN Unknown ELSE Name(i)) /\ d.subs[i].idx = subs[i].idx /\ Len(d.subs[i].verts) = subs[i].n
                               /\ \A k \in 1..subs[i].n : d.subs[i].verts[k] = Vertex(VertexBytes(Start(i) + k), 1, vt)
                               /\ \A t \in 1..Len(OfSub(d.subs[i]).f) : \A k \in 1..9 : OfSub(d.subs[i]).f[t][k] \in 1..subs[i].n
Prefixes == done => LET f == File IN \A i \in 0..(Len(f) - 1) : ~Decode(SubSeq(f, 1, i)).ok
EmitFile == (Emit /\ done) => PrintT("SCENARIO {\"kind\":\"mesh\",\"bytes\":\"" \o ToString(File) \o "\"}")
=============================================================================
