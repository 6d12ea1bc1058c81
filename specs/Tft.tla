--------------------------------- MODULE Tft ---------------------------------
(* TFT and Arena data: what the generated files hold for given game data.    *)
(* Game data is a sequence of entries [path, type, fields]; a value is       *)
(* [t, s, n, kids]: "bool", "num" (n: its integral part), "str", "path"      *)
(* and "hash" (s: as displayed), "ref" (s: the path of an entry),            *)
(* "list", "struct" (kids: fields), "map" (kids: pairs), "none".             *)
(* Output is made of nodes [t, s, kids], with "tr" for texts to translate,   *)
(* "any" for values which are not specified, "bag" for unordered lists.      *)
EXTENDS Paths, FiniteSets, TLC

(* -- game data -- *)
None == [t |-> "none", s |-> "", n |-> 0, kids |-> << >>]
Num(k) == [t |-> "num", s |-> ToString(k), n |-> k, kids |-> << >>]
RECURSIVE FieldIn(_, _)
FieldIn(fs, name) == IF fs = << >> THEN None ELSE IF fs[1].s = name THEN fs[1].kids[1] ELSE FieldIn(Tail(fs), name)
Get(v, name) == IF v.t \in {"struct", "entry"} THEN FieldIn(v.kids, name) ELSE None
Has(v, name) == Get(v, name).t # "none"
Or(a, b) == IF a.t = "none" THEN b ELSE a
(* Get, or the former name of the field *)
Get2(v, new, old) == Or(Get(v, new), Get(v, old))
Kids(v) == v.kids
OfType(es, types) == SelectSeq(es, LAMBDA e : e.type \in types)
At(es, path) == {i \in 1..Len(es) : es[i].path = path}
Known(es, path) == At(es, path) # {}
Entry(es, path) == es[CHOOSE i \in At(es, path) : TRUE]

RECURSIVE Contains(_, _)
Contains(s, x) == IF Len(s) < Len(x) THEN FALSE ELSE SubSeq(s, 1, Len(x)) = x \/ Contains(Tail(s), x)
Template(name) == Contains(name, "Template")

(* -- output -- *)
O(t, s, kids) == [t |-> t, s |-> s, kids |-> kids]
Null == O("none", "", << >>)
Unspec == O("any", "", << >>)
P(k, v) == O("pair", k, <<v>>)
Obj(ps) == O("obj", "", ps)
Bag(xs) == O("bag", "", xs)
Arr(xs) == O("list", "", xs)
N(k) == O("num", ToString(k), << >>)
(* a value of the game data as JSON *)
RECURSIVE Json(_)
Json(v) ==
    CASE v.t = "none" -> Null
      [] v.t \in {"bool", "num"} -> O(v.t, v.s, << >>)
      [] v.t \in {"str", "path", "hash", "ref"} -> O("str", v.s, << >>)
      [] v.t = "list" -> Arr([i \in 1..Len(v.kids) |-> Json(v.kids[i])])
      [] v.t = "map" -> Obj([i \in 1..Len(v.kids) |-> P(v.kids[i].s, Json(v.kids[i].kids[1]))])
      [] OTHER -> Obj(<<P("__type", O("str", v.s, << >>))>> \o [i \in 1..Len(v.kids) |-> P(v.kids[i].s, Json(v.kids[i].kids[1]))])
Translated(v) == IF v.t = "none" THEN Null ELSE O("tr", v.s, <<Lower(v.s)>>)
(* paths of icons; there may be no icon *)
Icon(v) == IF v.t = "none" THEN Unspec ELSE O("str", v.s, << >>)
Filled(v) == v.t # "none" /\ v.s # ""
IconOr(a, b) == IF Filled(a) THEN Icon(a) ELSE Icon(b)
Png(p) == IF Ext(Lower(p)) \in {".dds", ".tex"} THEN Stem(Lower(p)) \o ".png" ELSE Lower(p)
BoolOr(v) == IF v.t = "none" THEN O("bool", "false", << >>) ELSE Json(v)

RECURSIVE Cat(_)
Cat(ss) == IF ss = << >> THEN << >> ELSE ss[1] \o Cat(Tail(ss))
Map(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]
(* each of these values once *)
RECURSIVE Once(_)
Once(s) == IF s = << >> THEN << >> ELSE LET r == Once(SubSeq(s, 1, Len(s) - 1)) x == s[Len(s)] IN IF \E i \in 1..Len(r) : r[i] = x THEN r ELSE Append(r, x)

(* -- effects: pairs, later ones override -- *)
RECURSIVE Override(_, _)
Override(a, b) == IF b = << >> THEN a
                  ELSE Override(Append(SelectSeq(a, LAMBDA p : p.s # b[1].s), b[1]), Tail(b))
Effects(v) ==
    IF Has(v, "effectAmounts") THEN Override(<< >>, Map(Kids(Get(v, "effectAmounts")), LAMBDA e : P(Get(e, "name").s, Json(Get(e, "value")))))
    ELSE IF Has(v, "constants") THEN Map(Kids(Get(Get(v, "constants"), "#df085b93")), LAMBDA e : P(e.s, Json(Get(e.kids[1], "mValue"))))
    ELSE << >>

(* -- traits -- *)
TraitEntries(map) == SelectSeq(OfType(map, {"TftTraitData"}), LAMBDA e : ~Template(Get(e, "mName").s))
RECURSIVE Innate(_, _)
Innate(sets, acc) == IF sets = << >> THEN acc ELSE Innate(Tail(sets), Override(acc, Effects(sets[1])))
Trait(e) ==
    LET base == Innate(Kids(Get(e, "InnateTraitSets")), << >>)
        old == Has(e, "mTraitSets")
        pre(x) == IF old THEN "m" \o x ELSE x
        max(s) == LET v == Get(s, pre("MaxUnits")) IN IF v.t = "none" \/ v.s = "0" THEN N(25000) ELSE Json(v)
    IN Obj(<<P("apiName", Json(Get(e, "mName"))), P("name", Translated(Get(e, "mDisplayNameTra"))), P("desc", Translated(Get(e, "mDescriptionNameTra"))),
             P("icon", Icon(Get(e, "mIconPath"))),
             P("effects", Arr(Map(Kids(Get(e, IF old THEN "mTraitSets" ELSE "mConditionalTraitSets")),
                LAMBDA s : Obj(<<P("minUnits", Json(Get(s, pre("MinUnits")))), P("maxUnits", max(s)), P("style", Json(Or(Get(s, pre("Style")), Num(1)))),
                                 P("variables", Obj(Override(base, Effects(s))))>>))))>>)

(* -- champions: [name |-> lowercased name, data |-> output], for those with a file and spells -- *)
(* files: [name, where, entries]; the one of the characters directory is preferred *)
FileOf(files, name) == LET c == SelectSeq(files, LAMBDA f : f.name = name /\ f.where = "characters") d == SelectSeq(files, LAMBDA f : f.name = name) IN IF c # << >> THEN c ELSE d
LastPart(p) == Base(p)
Spell(es, rec) ==
    LET refs == SelectSeq(Kids(Get(rec, "spells")), LAMBDA r : r.s # "")
        wanted == Lower(LastPart(Kids(Get(rec, "spellNames"))[1].s))
        all == OfType(es, {"SpellObject"})
        found == IF Has(rec, "spells") THEN (IF refs = << >> THEN << >> ELSE SelectSeq(all, LAMBDA e : e.path = refs[1].s))
                 ELSE SelectSeq(all, LAMBDA e : Lower(Get(e, "mScriptName").s) = wanted)
    IN IF found = << >> THEN None ELSE Get(found[1], "mSpell")
(* a statistic: a structure with a base value, or a plain value *)
Stat(rec, new, old) == IF Has(rec, new) THEN Json(Get(Get(rec, new), "BaseValue")) ELSE Json(Get(rec, old))
Cost(rec, shop) == IF Has(rec, "tier") THEN Json(Get(rec, "tier")) ELSE LET r == Get(shop, "mRarity").n + 1 IN N(r + r \div 6)
Mana(rec) == LET r == Get(rec, "primaryAbilityResource") b == Get(r, "#726ee5cd")
             IN IF r.t = "none" THEN N(100) ELSE Json(Or(IF b.t # "none" THEN Get(b, "BaseValue") ELSE Get(r, "arBase"), Num(100)))
LinkedTraits(rec) == Cat(Map(Kids(Get(rec, "mLinkedTraits")), LAMBDA v : IF v.t = "struct" THEN Map(SelectSeq(v.kids, LAMBDA f : f.s = "TraitData"), LAMBDA f : f.kids[1].s) ELSE <<v.s>>))
Text(a, b) == IF Filled(a) THEN Translated(a) ELSE IF b.t = "none" /\ a.t # "none" THEN O("alt", "", <<Null, Translated(a)>>) ELSE Translated(b)
Champion(map, shop, es) ==
    LET rec == OfType(es, {"TFTCharacterRecord"})[1]
        traits == TraitEntries(map)
        spell == Spell(es, rec)
        keys == Get(Get(Get(spell, "mClientData"), "mTooltipData"), "mLocKeys")
        key(k) == LET f == SelectSeq(keys.kids, LAMBDA p : p.s = k) IN IF f = << >> THEN None ELSE f[1].kids[1]
        role == Get(rec, "CharacterRole")
        range == Or(IF Has(rec, "attackRangeModifiable") THEN Get(Get(rec, "attackRangeModifiable"), "BaseValue") ELSE Get(rec, "attackRange"), Num(0))
    IN Obj(<<P("apiName", Json(Get(shop, "mName"))), P("characterName", Json(Get(rec, "mCharacterName"))), P("name", Translated(Get(shop, "mDisplayNameTra"))),
             P("cost", Cost(rec, shop)), P("icon", IconOr(Get(shop, "PcSplashPath"), Get(shop, "mIconPath"))),
             P("tileIcon", Icon(Get(shop, "TeamPlannerPortraitPath"))), P("squareIcon", Icon(Get(shop, "SquareSplashPath"))),
             P("traits", Bag(Map(SelectSeq(LinkedTraits(rec), LAMBDA p : Known(traits, p)), LAMBDA p : Translated(Get(Entry(traits, p), "mDisplayNameTra"))))),
             P("role", IF role.t = "none" THEN Null ELSE IF Known(OfType(map, {"TFTCharacterRoleData"}), role.s) THEN Json(Get(Entry(map, role.s), "name")) ELSE Null),
             P("stats", Obj(<<P("hp", Stat(rec, "baseHPModifiable", "baseHP")), P("mana", Mana(rec)), P("initialMana", Json(Or(Get(rec, "mInitialMana"), Num(0)))),
                              P("damage", Stat(rec, "baseDamageModifiable", "BaseDamage")), P("armor", Stat(rec, "baseArmorModifiable", "baseArmor")),
                              P("magicResist", Stat(rec, "baseMR", "baseSpellBlock")), P("critMultiplier", Json(Get(rec, "critDamageMultiplier"))),
                              P("critChance", Json(Get(rec, "baseCritChance"))), P("attackSpeed", Stat(rec, "attackSpeedModifiable", "attackSpeed")),
                              P("range", N(range.n \div 180))>>)),
             P("ability", Obj(<<P("name", Text(Get(shop, "mAbilityNameTra"), key("keyName"))), P("desc", Text(Get(shop, "mDescriptionTra"), key("keyTooltip"))),
                                P("icon", IconOr(Get(shop, "AbilityIconPath"), Get(shop, "mPortraitIconPath"))),
                                P("variables", Arr(Map(Kids(Get2(spell, "DataValues", "mDataValues")),
                                    LAMBDA v : Obj(<<P("name", Json(Get2(v, "name", "mName"))), P("value", Json(Get2(v, "values", "mValues")))>>))))>>))>>)
Playable(files, shop) ==
    LET name == Lower(Get(shop, "mName").s) f == FileOf(files, name)
    IN /\ name # "tft_template" /\ f # << >>
       /\ LET recs == OfType(f[1].entries, {"TFTCharacterRecord"}) IN recs # << >> /\ (Has(recs[1], "spells") \/ Has(recs[1], "spellNames"))
Champions(map, files) ==
    Map(SelectSeq(OfType(map, {"TftShopData"}), LAMBDA s : Playable(files, s)),
        LAMBDA s : LET name == Lower(Get(s, "mName").s) IN [name |-> name, data |-> Champion(map, s, FileOf(files, name)[1].entries)])

(* -- sets: [number, mutator, name, chars (names), traits (paths), augments, items] -- *)
Named(map, paths) == LET cs == OfType(map, {"Character", "TftCharacter"}) IN Map(SelectSeq(paths, LAMBDA p : Known(cs, p)), LAMBDA p : Lower(Get(Entry(cs, p), "name").s))
Refs(v) == Map(Kids(v), LAMBDA r : r.s)
Listed(es, lists, field) == Cat(Map(SelectSeq(lists, LAMBDA p : Known(es, p)), LAMBDA p : Refs(Get(Entry(es, p), field))))
(* list with the most elements *)
Longest(es, field) == LET n(i) == Len(Kids(Get(es[i], field))) IN es[CHOOSE i \in 1..Len(es) : \A k \in 1..Len(es) : n(k) <= n(i)]
CharLists(map) == OfType(map, {"MapCharacterList", "TftCharacterList"})
TraitLists(map) == OfType(map, {"TftTraitList"})
ItemEntries(map) == OfType(map, {"TftItemData"})
SetLists(e) == Refs(Get(e, "characterLists")) \o Refs(Get(e, "tftCharacterLists"))
SetName(e) == LET f == SelectSeq(Kids(Get(e, "ScriptData")), LAMBDA p : p.s = "SetName") IN IF f = << >> THEN None ELSE Get(f[1].kids[1], "mValue")
(* sets without characters, traits, number or name are not real ones *)
RealSet(e) == SetLists(e) # << >> /\ Has(e, "TraitLists") /\ Has(e, "number") /\ SetName(e).t # "none"
SetOf(map, e) ==
    LET its == Map(SelectSeq(Once(Listed(OfType(map, {"TFTItemList"}), Refs(Get(e, "ItemLists")), "mItems")), LAMBDA p : Known(ItemEntries(map), p)),
                   LAMBDA p : Entry(ItemEntries(map), p))
        aug(i) == Get(i, "IsAugment").s = "true"
        names(s) == Once(Map(s, LAMBDA i : Json(Get(i, "mName"))))
    IN [number |-> Json(Get(e, "number")), mutator |-> Json(Get2(e, "Mutator", "name")), name |-> Json(SetName(e)),
        chars |-> Named(map, Listed(CharLists(map), SetLists(e), "Characters")),
        traits |-> Once(Listed(TraitLists(map), Refs(Get(e, "TraitLists")), "mTraits")),
        augments |-> Bag(names(SelectSeq(its, aug))), items |-> Bag(names(SelectSeq(its, LAMBDA i : ~aug(i))))]
Sets(map) ==
    IF OfType(map, {"TFTSetData"}) # << >> THEN Map(SelectSeq(OfType(map, {"TFTSetData"}), RealSet), LAMBDA e : SetOf(map, e))
    ELSE <<[number |-> N(1), mutator |-> Unspec, name |-> O("str", "Base", << >>),
            chars |-> Named(map, Refs(Get(Longest(CharLists(map), "Characters"), "Characters"))),
            traits |-> Once(Refs(Get(Longest(TraitLists(map), "mTraits"), "mTraits"))), augments |-> Unspec, items |-> Unspec]>>
Supported(map) == OfType(map, {"TFTSetData"}) # << >> \/ (CharLists(map) # << >> /\ TraitLists(map) # << >>)

(* -- items -- *)
RealItems(map) == SelectSeq(ItemEntries(map), LAMBDA e : ~Template(Get(e, "mName").s) /\ Get(e, "mName").s # "TFT_Item_Null")
Item(map, e) ==
    LET items == RealItems(map)
        traits == OfType(map, {"TftTraitData"})
        of(es, field) == SelectSeq(Refs(Get(e, field)), LAMBDA p : Known(es, p))
        api(es, field) == Arr(Map(of(es, field), LAMBDA p : Json(Get(Entry(es, p), "mName"))))
    IN Obj(<<P("id", Json(Get(e, "mId"))), P("name", Translated(Get(e, "mDisplayNameTra"))), P("apiName", Json(Get(e, "mName"))), P("desc", Translated(Get(e, "mDescriptionNameTra"))),
             P("icon", Icon(Get(e, "mIconPath"))), P("isAugment", BoolOr(Get(e, "IsAugment"))), P("unique", BoolOr(Get(e, "mIsUnique"))),
             P("from", IF Has(e, "mId") THEN Arr(Map(of(items, "mComposition"), LAMBDA p : Json(Get(Entry(items, p), "mId")))) ELSE Null),
             P("composition", api(items, "mComposition")), P("associatedTraits", api(traits, "AssociatedTraits")), P("incompatibleTraits", api(traits, "IncompatibleTraits")),
             P("effects", Obj(Effects(e))), P("tags", Bag(Map(Kids(Get(e, "ItemTags")), Json)))>>)

(* references whose object is missing where it is not just left out: the data may be refused *)
Dangling(map, files) ==
    \/ \E i \in 1..Len(map) : map[i].type = "TftItemData" /\ (\E p \in {Refs(Get(map[i], "mComposition"))[k] : k \in 1..Len(Refs(Get(map[i], "mComposition")))} : ~Known(RealItems(map), p))
    \/ \E i \in 1..Len(map), f \in {"AssociatedTraits", "IncompatibleTraits"} : map[i].type = "TftItemData" /\ \E k \in 1..Len(Refs(Get(map[i], f))) : ~Known(OfType(map, {"TftTraitData"}), Refs(Get(map[i], f))[k])
    \/ \E i \in 1..Len(files) : \E k \in 1..Len(files[i].entries) : LET r == Get(files[i].entries[k], "CharacterRole") IN r.t # "none" /\ ~Known(OfType(map, {"TFTCharacterRoleData"}), r.s)

(* -- a file of TFT data -- *)
RECURSIVE LastOfNumber(_)
LastOfNumber(ss) == IF ss = << >> THEN << >>
                    ELSE LET r == LastOfNumber(Tail(ss)) IN IF \E i \in 2..Len(ss) : ss[i].number = ss[1].number THEN r ELSE <<ss[1]>> \o r
TftData(map, files) ==
    LET traits == Map(TraitEntries(map), LAMBDA e : [path |-> e.path, data |-> Trait(e)])
        champions == Champions(map, files)
        traitsOf(s) == Bag(Map(SelectSeq(s.traits, LAMBDA p : Known(traits, p)), LAMBDA p : Entry(traits, p).data))
        has(n) == \E i \in 1..Len(champions) : champions[i].name = n
        these(names) == Bag(Map(SelectSeq(names, has), LAMBDA n : champions[CHOOSE i \in 1..Len(champions) : champions[i].name = n].data))
        (* a champion in several lists of the set may be repeated *)
        champsOf(s) == IF Once(s.chars) = s.chars THEN these(s.chars) ELSE O("alt", "", <<these(Once(s.chars)), these(s.chars)>>)
        sets == Sets(map)
    IN Obj(<<P("sets", Obj(Map(LastOfNumber(sets), LAMBDA s : P(s.number.s, Obj(<<P("name", s.name), P("traits", traitsOf(s)), P("champions", champsOf(s))>>))))),
             P("setData", Bag(Map(sets, LAMBDA s : Obj(<<P("number", s.number), P("mutator", s.mutator), P("name", s.name), P("traits", traitsOf(s)), P("champions", champsOf(s)),
                                                        P("augments", s.augments), P("items", s.items)>>)))),
             P("items", Bag(Map(RealItems(map), LAMBDA e : Item(map, e))))>>)

(* -- a file of Arena data -- *)
ArenaDangling(map) == \E i \in 1..Len(map) : map[i].type = "AugmentData" /\ Has(map[i], "RootSpell") /\ ~Known(OfType(map, {"SpellObject"}), Get(map[i], "RootSpell").s)
Augment(map, e) ==
    LET root == Get(e, "RootSpell")
        spell == IF root.t # "none" /\ Known(OfType(map, {"SpellObject"}), root.s) THEN Get(Entry(map, root.s), "mSpell") ELSE None
        value(v) == LET w == Get2(v, "values", "mValues") IN IF w.t = "list" /\ Len(w.kids) > 0 THEN O("alt", "", <<Json(w), Json(w.kids[1])>>) ELSE Unspec
        icon(f) == IF Has(e, f) THEN O("str", Png(Get(e, f).s), << >>) ELSE Unspec
    IN Obj(<<P("id", Json(Get(e, "AugmentPlatformId"))), P("apiName", Json(Get(e, "AugmentNameId"))), P("name", Translated(Get(e, "NameTra"))), P("desc", Translated(Get(e, "DescriptionTra"))),
             P("tooltip", Translated(Get(e, "AugmentTooltipTra"))), P("iconSmall", icon("AugmentSmallIconPath")), P("iconLarge", icon("AugmentLargeIconPath")),
             P("rarity", Json(Or(Get(e, "rarity"), Num(0)))),
             P("dataValues", Obj(Map(Kids(Get2(spell, "DataValues", "mDataValues")), LAMBDA v : P(Get2(v, "name", "mName").s, value(v))))),
             P("calculations", IF Has(spell, "mSpellCalculations") THEN Json(Get(spell, "mSpellCalculations")) ELSE Obj(<< >>))>>)
ArenaData(map) == Obj(<<P("augments", Bag(Map(SelectSeq(OfType(map, {"AugmentData"}), LAMBDA e : Get(e, "enabled").s # "false"), LAMBDA e : Augment(map, e))))>>)

(* -- languages -- *)
(* tables: [format, lang, pairs]; the newest format is used *)
Formats(game) == <<game, "main", "menu", "font">>
Tables(tables, game) ==
    LET of(f) == SelectSeq(tables, LAMBDA t : t.format = f)
        fs == SelectSeq(Formats(game), LAMBDA f : of(f) # << >>)
    IN IF fs = << >> THEN << >> ELSE of(fs[1])
(* names of the texts of string tables have no case *)
Names(table) == [table EXCEPT !.pairs = IF table.kind = "font" THEN @ ELSE [i \in 1..Len(@) |-> <<Lower(@[i][1]), @[i][2]>>]]
(* table: from Names *)
Lookup(table, text, lower) == LET key == IF table.kind = "font" THEN text ELSE lower f == SelectSeq(table.pairs, LAMBDA p : p[1] = key) IN IF f = << >> THEN text ELSE f[Len(f)][2]
Translate(table, text) == Lookup(Names(table), text, Lower(text))

(* -- generated files: got is a node of an output -- *)
RECURSIVE Same(_, _, _)
Same(x, got, table) ==
    CASE x.t = "any" -> TRUE
      [] x.t = "tr" -> got.t = "str" /\ got.s = Lookup(table, x.s, x.kids[1])
      [] x.t = "alt" -> \E i \in 1..Len(x.kids) : Same(x.kids[i], got, table)
      [] x.t = "obj" -> /\ got.t = "obj" /\ Len(got.kids) = Len(x.kids)
                        /\ \A i \in 1..Len(x.kids) : \E k \in 1..Len(got.kids) : got.kids[k].s = x.kids[i].s /\ Same(x.kids[i].kids[1], got.kids[k].kids[1], table)
      [] x.t = "list" -> got.t = "list" /\ Len(got.kids) = Len(x.kids) /\ \A i \in 1..Len(x.kids) : Same(x.kids[i], got.kids[i], table)
      [] x.t = "bag" -> /\ got.t = "list" /\ Len(got.kids) = Len(x.kids)
                        /\ \A i \in 1..Len(x.kids) : \E k \in 1..Len(got.kids) : Same(x.kids[i], got.kids[k], table)
                        /\ \A k \in 1..Len(got.kids) : \E i \in 1..Len(x.kids) : Same(x.kids[i], got.kids[k], table)
      [] OTHER -> got.t = x.t /\ got.s = x.s
(* where they differ *)
IsId(x, got) == x.t = "obj" /\ got.t = "obj" /\ \E k \in {"apiName", "mutator"} : \E i \in 1..Len(x.kids), j \in 1..Len(got.kids) : x.kids[i].s = k /\ got.kids[j].s = k /\ x.kids[i].kids[1].s = got.kids[j].kids[1].s
RECURSIVE Where(_, _, _, _)
Where(x, got, table, at) ==
    IF Same(x, got, table) THEN {}
    ELSE IF x.t = "obj" /\ got.t = "obj" /\ {x.kids[i].s : i \in 1..Len(x.kids)} = {got.kids[i].s : i \in 1..Len(got.kids)}
         THEN UNION {UNION {Where(x.kids[i].kids[1], got.kids[k].kids[1], table, at \o "/" \o x.kids[i].s) : k \in {k \in 1..Len(got.kids) : got.kids[k].s = x.kids[i].s}} : i \in 1..Len(x.kids)}
    ELSE IF x.t = "alt" THEN Where(x.kids[1], got, table, at)
    ELSE IF x.t = "bag" /\ got.t = "list" /\ Len(got.kids) = Len(x.kids)
         THEN {at} \cup UNION {UNION {Where(x.kids[i], got.kids[k], table, at) : k \in {k \in 1..Len(got.kids) : IsId(x.kids[i], got.kids[k])}} : i \in 1..Len(x.kids)}
    ELSE {at}
=============================================================================
