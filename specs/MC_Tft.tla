-------------------------------- MODULE MC_Tft --------------------------------
(* Data shared by several sets, translated to several languages one after    *)
(* another, each from its own copy: each text is translated exactly once.    *)
EXTENDS Tft, Json
CONSTANTS MaxTraits, MaxChamps, MaxSets, MaxTexts, Keys, Emit
VARIABLES phase, traits, champs, sets, tables, format, cur, done, todo, lang, output
vars == <<phase, traits, champs, sets, tables, format, cur, done, todo, lang, output>>


Texts == {"", "a", "b", "B", "X"}      (* "": none *)
Langs == <<"en_us", "fr_fr">>
Init == /\ phase = "traits" /\ traits = << >> /\ champs = << >> /\ sets = << >> /\ format \in {"rst", "font"}
        /\ tables = [x \in {"en_us", "fr_fr"} |-> [k \in Keys |-> ""]] /\ cur = << >> /\ done = {} /\ todo = << >> /\ lang = 0 /\ output = << >>
still == UNCHANGED <<cur, done, todo, lang, output>>
AddTrait == /\ phase = "traits" /\ Len(traits) < MaxTraits /\ \E k \in Keys, t \in BOOLEAN : traits' = Append(traits, [name |-> k, template |-> t])
            /\ UNCHANGED <<phase, champs, sets, tables, format>> /\ still
AddChamp == /\ phase = "traits" /\ Len(champs) < MaxChamps /\ \E k \in Keys, i \in 0..Len(traits) : champs' = Append(champs, [name |-> k, traits |-> IF i = 0 THEN << >> ELSE <<i>>])
            /\ UNCHANGED <<phase, traits, sets, tables, format>> /\ still
Sub(n) == IF n = 0 THEN {<< >>} ELSE IF n = 1 THEN {<< >>, <<1>>} ELSE {<< >>, <<1>>, <<2, 1>>}
AddSet == /\ phase \in {"traits", "sets"} /\ Len(sets) < MaxSets /\ phase' = "sets"
          /\ \E t \in Sub(Len(traits)), x \in Sub(Len(champs)), n \in 1..2 : sets' = Append(sets, [traits |-> t, champs |-> x, number |-> n])
          /\ UNCHANGED <<traits, champs, tables, format>> /\ still
SetText == /\ phase \in {"sets", "tables"} /\ phase' = "tables" /\ Cardinality({x \in {"en_us", "fr_fr"} \X Keys : tables[x[1]][x[2]] # ""}) < MaxTexts
           /\ \E x \in {"en_us", "fr_fr"}, k \in Keys, v \in Texts \ {""} : tables[x][k] = "" /\ tables' = [tables EXCEPT ![x][k] = v]
           /\ UNCHANGED <<traits, champs, sets, format>> /\ still
Ready == phase \in {"sets", "tables"} /\ phase' = "generate" /\ UNCHANGED <<traits, champs, sets, tables, format>> /\ still

(* generation: objects are <<"trait" or "champ", index>>; a champion also holds names of its traits *)
Kept(s) == SelectSeq(s.traits, LAMBDA i : ~traits[i].template)
Uses == Cat([i \in 1..Len(sets) |-> [k \in 1..Len(Kept(sets[i])) |-> <<"trait", Kept(sets[i])[k]>>] \o [k \in 1..Len(sets[i].champs) |-> <<"champ", sets[i].champs[k]>>]])
TraitNames(i) == Map(SelectSeq(champs[i].traits, LAMBDA t : ~traits[t].template), LAMBDA t : traits[t].name)
Objects == {Uses[i] : i \in 1..Len(Uses)}
Template0 == [o \in Objects |-> IF o[1] = "trait" THEN <<traits[o[2]].name>> ELSE <<champs[o[2]].name>> \o TraitNames(o[2])]
Table(x) == [kind |-> format, pairs |-> LET ks == SelectSeq(SelectSeq(<<"a", "B", "c">>, LAMBDA k : k \in Keys), LAMBDA k : tables[x][k] # "") IN [i \in 1..Len(ks) |-> <<ks[i], tables[x][ks[i]]>>]]
Start == /\ phase = "generate" /\ lang < Len(Langs) /\ todo = << >> /\ lang' = lang + 1 /\ phase' = "walk"
         /\ cur' = Template0 /\ done' = {} /\ todo' = Uses \o Uses    (* data of sets is used twice *)
         /\ UNCHANGED <<traits, champs, sets, tables, format, output>>
Walk == /\ phase = "walk" /\ todo # << >> /\ todo' = Tail(todo) /\ done' = done \cup {todo[1]}
        /\ cur' = IF todo[1] \in done THEN cur ELSE [cur EXCEPT ![todo[1]] = [i \in 1..Len(@) |-> Translate(Table(Langs[lang]), @[i])]]
        /\ UNCHANGED <<phase, traits, champs, sets, tables, format, lang, output>>
Write == /\ phase = "walk" /\ todo = << >> /\ phase' = "generate" /\ output' = Append(output, cur)
         /\ UNCHANGED <<traits, champs, sets, tables, format, cur, done, todo, lang>>
Next == AddTrait \/ AddChamp \/ AddSet \/ SetText \/ Ready \/ Start \/ Walk \/ Write

TranslatedOnce == \A n \in 1..Len(output) : \A o \in Objects : output[n][o] = [i \in 1..Len(Template0[o]) |-> Translate(Table(Langs[n]), Template0[o][i])]

(* the data of these sets as defined by Tft *)
N0(x) == [t |-> "str", s |-> x, n |-> 0, kids |-> << >>]
Fld(n, v) == [t |-> "field", s |-> n, n |-> 0, kids |-> <<v>>]
Refs0(p, s) == [t |-> "list", s |-> "", n |-> 0, kids |-> [i \in 1..Len(s) |-> [t |-> "ref", s |-> p \o ToString(s[i]), n |-> 0, kids |-> << >>]]]
Ent(p, ty, fs) == [t |-> "entry", path |-> p, type |-> ty, kids |-> fs]
St(fs) == [t |-> "struct", s |-> "", n |-> 0, kids |-> fs]
Bin == Cat([i \in 1..Len(traits) |-> <<Ent("T" \o ToString(i), "TftTraitData", <<Fld("mName", N0(IF traits[i].template THEN "TemplateX" ELSE "X")), Fld("mDisplayNameTra", N0(traits[i].name))>>)>>])
       \o Cat([i \in 1..Len(champs) |-> <<Ent("C" \o ToString(i), "Character", <<Fld("name", N0("Champ" \o ToString(i)))>>),
                                          Ent("S" \o ToString(i), "TftShopData", <<Fld("mName", N0("champ" \o ToString(i))), Fld("mDisplayNameTra", N0(champs[i].name))>>)>>])
       \o Cat([i \in 1..Len(sets) |-> <<Ent("CL" \o ToString(i), "MapCharacterList", <<Fld("Characters", Refs0("C", sets[i].champs))>>), Ent("TL" \o ToString(i), "TftTraitList", <<Fld("mTraits", Refs0("T", sets[i].traits))>>),
                                        Ent("X" \o ToString(i), "TFTSetData", <<Fld("number", Num(sets[i].number)), Fld("characterLists", Refs0("CL", <<i>>)), Fld("TraitLists", Refs0("TL", <<i>>)),
                                            Fld("ScriptData", [t |-> "map", s |-> "", n |-> 0, kids |-> <<[t |-> "pair", s |-> "SetName", n |-> 0, kids |-> <<St(<<Fld("mValue", N0("Set"))>>)>>]>>])>>)>>])
Files == [i \in 1..Len(champs) |-> [name |-> "champ" \o ToString(i), where |-> "data", entries |-> <<Ent("R", "TFTCharacterRecord", <<Fld("spells", Refs0("", << >>)), Fld("mLinkedTraits", Refs0("T", champs[i].traits))>>)>>]]
Key(o, k) == (CHOOSE p \in {o.kids[i] : i \in 1..Len(o.kids)} : p.s = k).kids[1]
Bagged(s) == {s[i] : i \in 1..Len(s)}
(* sets hold their own traits and champions, of any number *)
Complete == (phase = "generate" /\ lang = 0) =>
    LET data == Key(TftData(Bin, Files), "setData").kids sets0 == Key(TftData(Bin, Files), "sets").kids
    IN /\ Len(data) = Len(sets) /\ {sets0[i].s : i \in 1..Len(sets0)} = {ToString(sets[i].number) : i \in 1..Len(sets)}
       /\ \A i \in 1..Len(sets) :
            /\ {Key(x, "name").s : x \in Bagged(Key(data[i], "traits").kids)} = {traits[Kept(sets[i])[k]].name : k \in 1..Len(Kept(sets[i]))}
            /\ {<<Key(x, "apiName").s, Key(x, "name").s, Map(Key(x, "traits").kids, LAMBDA y : y.s)>> : x \in Bagged(Key(data[i], "champions").kids)}
                 = {<<"champ" \o ToString(sets[i].champs[k]), champs[sets[i].champs[k]].name, TraitNames(sets[i].champs[k])>> : k \in 1..Len(sets[i].champs)}
EmitCase == (Emit /\ phase = "generate" /\ lang = 0) => PrintT("SCENARIO " \o ToJson([traits |-> traits, champs |-> champs, sets |-> sets, tables |-> tables, format |-> format]))
=============================================================================
