------------------------------- MODULE MC_Infos -------------------------------
(* Atlas and skin information written then decoded                            *)
EXTENDS Infos, TLC
CONSTANTS Max, Emit
VARIABLES kind, atlases, recs, done
vars == <<kind, atlases, recs, done>>

Paths == {<<97, 46, 68, 68, 83>>, <<65, 47, 98, 46, 116, 101, 120>>, <<99, 47, 46, 100, 100, 115>>, <<100, 46, 116, 103, 97>>}
Hashes == {<<1, 2, 3, 4, 5, 6, 7, 200>>, <<9, 9, 9, 9, 9, 9, 9, 9>>}
Names == << << <<1, 2, 3, 4, 5, 6, 7, 200>>, <<88, 46, 100, 100, 115>> >> >>
Ids == IF kind = "hashes" THEN Hashes ELSE Paths
Init == kind \in {"strings", "hashes", "skins"} /\ atlases = << >> /\ recs = << >> /\ done = FALSE
XY == [i \in 1..16 |-> IF i % 4 = 0 THEN 63 ELSE i]
Add ==
    /\ ~done /\ UNCHANGED <<kind, done>>
    /\ \/ kind # "skins" /\ Len(atlases) < 2 /\ recs = << >> /\ UNCHANGED recs /\ \E a \in Ids : atlases' = Append(atlases, a)
       \/ kind # "skins" /\ Len(recs) < Max /\ UNCHANGED atlases /\ \E t \in Ids, i \in 1..Len(atlases) : recs' = Append(recs, [id |-> t, at |-> i])
       \/ kind = "skins" /\ Len(recs) < Max + 1 /\ UNCHANGED atlases /\ \E c \in {<< >>, <<65>>}, n \in 0..1, f \in {0, 4, 5}, i \in {0, 1000} : recs' = Append(recs, [id |-> c, n |-> n, f |-> f, i |-> i])
Finish == ~done /\ done' = TRUE /\ UNCHANGED <<kind, atlases, recs>>
Next == Add \/ Finish
Put(x) == IF kind = "hashes" THEN x ELSE LE(Len(x), 4) \o x
RECURSIVE PutAll(_), PutRecs(_), PutChampions(_)
PutAll(s) == IF s = << >> THEN << >> ELSE Put(s[1]) \o PutAll(Tail(s))
PutRecs(s) == IF s = << >> THEN << >> ELSE Put(s[1].id) \o XY \o LE(s[1].at - 1, 4) \o PutRecs(Tail(s))
PutChampions(s) == IF s = << >> THEN << >>
                   ELSE Put(s[1].id) \o LE(s[1].n, 4) \o (IF s[1].n = 0 THEN << >> ELSE LE(s[1].i, 4) \o <<s[1].f>> \o Put(<<83, 195, 169>>)) \o PutChampions(Tail(s))
File == CASE kind = "skins" -> MahC \o LE(2, 4) \o LE(Len(recs), 4) \o PutChampions(recs)
          [] OTHER -> (IF kind = "hashes" THEN IMAA ELSE << >>) \o LE(Len(atlases), 4) \o PutAll(atlases) \o LE(Len(recs), 4) \o PutRecs(recs)
Decoded(b) == IF kind = "skins" THEN Skins(b).ok ELSE Atlas(b, Names).ok
RoundTrip == done =>
    IF kind = "skins"
    THEN LET d == Skins(File) IN /\ d.ok /\ d.sound /\ {d.champions[i].name : i \in 1..Len(d.champions)} = {recs[i].id : i \in 1..Len(recs)}
                                 /\ \A i \in 1..Len(d.champions) : \E k \in 1..Len(recs) : recs[k].id = d.champions[i].name /\ Len(d.champions[i].skins) = recs[k].n
                                      /\ (recs[k].n = 1 => d.champions[i].skins[1].prestige = (recs[k].f = 4) /\ d.champions[i].skins[1].id = IF recs[k].i = 0 THEN <<48>> ELSE <<49, 48, 48, 48>>)
    ELSE LET d == Atlas(File, Names) IN /\ d.ok /\ d.sound /\ \A i \in 1..Len(recs) : \E k \in 1..Len(d.textures) : d.textures[k].name = IF kind = "strings" THEN recs[i].id ELSE NameOf(Names, recs[i].id)
                                        /\ \A k \in 1..Len(d.textures) : d.textures[k].xy = XY
Prefixes == done => LET f == File IN \A i \in 0..(Len(f) - 1) : ~Decoded(SubSeq(f, 1, i))
ASSUME Exported(<<97, 46, 68, 68, 83>>) = <<97, 46, 112, 110, 103>> /\ Exported(<<99, 47, 46, 100, 100, 115>>) = <<99, 47, 46, 100, 100, 115>>
EmitFile == (Emit /\ done) => PrintT("SCENARIO {\"kind\":\"" \o kind \o "\",\"bytes\":\"" \o ToString(File) \o "\"}")
=============================================================================
