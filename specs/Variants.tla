------------------------------ MODULE Variants ------------------------------
(* What each guessing method promises to try. Paths are strings; known is    *)
(* the set of known paths before the method runs. Promised(m, a, known, t):  *)
(* method m, with arguments a, tries path t.                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Languages == {"ar_ae", "ar_eg", "cs_cz", "de_de", "el_gr", "en_au", "en_gb", "en_ph", "en_pl", "en_sg", "en_us", "es_ar", "es_es", "es_mx", "fr_fr", "hu_hu", "id_id", "it_it", "ja_jp", "ko_kr", "ms_my", "pl_pl", "pt_br", "ro_ro", "ru_ru", "th_th", "tr_tr", "vi_vn", "vn_vn", "zh_cn", "zh_my", "zh_tw"}
Regions == {"br", "cn", "eun", "eune", "euw", "garena2", "garena3", "id", "jp", "kr", "la", "la1", "la2", "lan", "las", "me1", "na", "oc", "oc1", "oce", "pbe", "ph", "ph2", "ru", "sg", "sg2", "tencent", "th", "th2", "tr", "tw", "tw2", "vn", "vn2"}

SeqSet(s) == {s[i] : i \in 1..Len(s)}

(* -- strings -- *)
Ch(p, i) == SubSeq(p, i, i)
From(p, i) == SubSeq(p, i, Len(p))
Upto(p, i) == SubSeq(p, 1, i)
Starts(p, s) == Len(p) >= Len(s) /\ Upto(p, Len(s)) = s
Ends(p, s) == Len(p) >= Len(s) /\ From(p, Len(p) - Len(s) + 1) = s
Has(p, s) == \E i \in 1..(Len(p) - Len(s) + 1) : SubSeq(p, i, i + Len(s) - 1) = s
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Positions(p, c) == {i \in 1..Len(p) : Ch(p, i) = c}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Value(d) == CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3 [] d = "4" -> 4 [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7 [] d = "8" -> 8 [] d = "9" -> 9
AllDigits(s) == s # "" /\ \A i \in 1..Len(s) : Ch(s, i) \in Digits
RECURSIVE Number(_)
Number(s) == IF s = "" THEN 0 ELSE 10 * Number(Upto(s, Len(s) - 1)) + Value(Ch(s, Len(s)))
(* a number below n, as text; at most 5 digits *)
Plain(s) == AllDigits(s) /\ Len(s) <= 5 /\ (Len(s) = 1 \/ Ch(s, 1) # "0")
Below(s, n) == Plain(s) /\ Number(s) < n

(* -- paths -- *)
LastSlash(p) == Max({0} \cup Positions(p, "/"))
Base(p) == From(p, LastSlash(p) + 1)
DirOf(p) == IF LastSlash(p) = 0 THEN "" ELSE Upto(p, LastSlash(p) - 1)
(* all directories and subdirectories *)
Dirs(known) == UNION {{Upto(p, i - 1) : i \in Positions(p, "/")} : p \in known} \ {""}
(* last dot of a basename which is neither leading nor trailing *)
Dots(p) == {i \in Positions(p, ".") : i > LastSlash(p)}
StemEnd(p) == Max({0} \cup {i \in Dots(p) : i < Len(p)})
ExtAt(p) == LET ds == {i \in Dots(p) : \E j \in (LastSlash(p) + 1)..(i - 1) : Ch(p, j) # "."}
            IN IF ds = {} THEN Len(p) + 1 ELSE Max(ds)
Ext(p) == From(p, ExtAt(p))
Prefix(p) == Upto(p, ExtAt(p) - 1)

Seps == {"/", "_", "-", "."}
IsSep(p, i) == i < 1 \/ i > Len(p) \/ Ch(p, i) \in Seps
IsDigitAt(p, i) == i >= 1 /\ i <= Len(p) /\ Ch(p, i) \in Digits
(* runs of digits, words of basenames: positions [first, last] *)
Stem(p) == (LastSlash(p) + 1)..(StemEnd(p) - 1)
NumberRuns(p) == {r \in Stem(p) \X Stem(p) :
    /\ r[1] <= r[2]
    /\ IsDigitAt(p, r[1]) /\ ~IsDigitAt(p, r[1] - 1) /\ ~IsDigitAt(p, r[2] + 1) /\ \A k \in r[1]..r[2] : IsDigitAt(p, k)}
WordRuns(p) == {r \in Stem(p) \X Stem(p) :
    /\ r[1] <= r[2]
    /\ IsSep(p, r[1] - 1) /\ IsSep(p, r[2] + 1) /\ \A k \in r[1]..r[2] : ~IsSep(p, k)}
(* words of whole paths, except the last one; large numbers are not words *)
Words(known) ==
    LET cuts(p) == {0} \cup {i \in 1..Len(p) : IsSep(p, i)}
        ws(p) == {SubSeq(p, i + 1, Min({j \in cuts(p) : j > i}) - 1) : i \in {k \in cuts(p) : \E j \in cuts(p) : j > k}}
    IN {w \in UNION {ws(p) : p \in known} : w # "" /\ ~(AllDigits(w) /\ Len(w) >= 3)}

(* t is p with positions i..j replaced; what they are replaced with *)
Around(p, t, i, j) == Len(t) >= Len(p) - (j - i + 1) /\ Starts(t, Upto(p, i - 1)) /\ Ends(t, From(p, j + 1))
Middle(p, t, i, j) == SubSeq(t, i, Len(t) - (Len(p) - j))

(* -- common methods -- *)
Basenames(known, names, t) == \E d \in Dirs(known), n \in names : t = d \o "/" \o n
SubstBasenames(known, t) == LastSlash(t) > 1 /\ DirOf(t) \in Dirs(known) /\ \E q \in known : Base(q) = Base(t)
SubstNumbers(known, nmax, digits, t) ==
    \E p \in known : \E r \in NumberRuns(p) :
        /\ Around(p, t, r[1], r[2])
        /\ LET m == Middle(p, t, r[1], r[2])
           IN IF digits = 0 THEN Below(m, nmax)
              ELSE r[2] - r[1] + 1 = digits /\ AllDigits(m) /\ Len(m) = digits /\ Len(m) <= 5 /\ Number(m) < nmax
SubstWord(known, words, t) ==
    \E p \in known : \E r \in WordRuns(p) : Around(p, t, r[1], r[2]) /\ Middle(p, t, r[1], r[2]) \in words
(* nold side by side words, separated by - or _ *)
WordGroups(p, n) == {<<f[1][1], f[n][2]>> : f \in {h \in [1..n -> WordRuns(p)] :
        \A k \in 1..(n - 1) : h[k + 1][1] = h[k][2] + 2 /\ Ch(p, h[k][2] + 1) \in {"-", "_"}}}
Joined(words, n, m) == IF n = 1 THEN m \in words
                       ELSE \E a, b \in words, s \in {"-", "_"} : m = a \o s \o b
SubstWords(known, words, nold, nnew, t) ==
    \E p \in known : \E r \in WordGroups(p, nold) : Around(p, t, r[1], r[2]) /\ Joined(words, nnew, Middle(p, t, r[1], r[2]))
AddWord(known, words, t) ==
    \E p \in known : \E r \in WordRuns(p), w \in words, s \in {"-", "_"} :
        t \in {Upto(p, r[1] - 1) \o w \o s \o From(p, r[1]), Upto(p, r[2]) \o s \o w \o From(p, r[2] + 1)}
SubstExt(known, t) == \E p, q \in known : ~Ends(Ext(q), "00") /\ t = Prefix(p) \o Ext(q)

(* -- client -- *)
Plugins == "plugins/"
Parts3(p) == LET s == Positions(p, "/") IN IF Cardinality(s) < 4 THEN 0 ELSE CHOOSE i \in s : Cardinality({j \in s : j <= i}) = 4
Second(p) == Min({i \in Positions(p, "/") : i > Len(Plugins)})
HasPlugin(p) == Starts(p, Plugins) /\ \E i \in Positions(p, "/") : i > Len(Plugins) + 1
PluginOf(p) == SubSeq(p, Len(Plugins) + 1, Second(p) - 1)
RegionLang(known, t) ==
    \E p \in known : /\ HasPlugin(p) /\ Parts3(p) > 0
        /\ \E r \in Regions \cup {"global"}, l \in Languages \cup {"default"} :
              t = Upto(p, Second(p)) \o r \o "/" \o l \o From(p, Parts3(p))
SubstPlugin(known, t) == \E p, q \in known : HasPlugin(p) /\ HasPlugin(q) /\ t = Plugins \o PluginOf(q) \o From(p, Second(p))
GameData == "plugins/rcp-be-lol-game-data/global/default/"
FromGame(others, t) == \E q \in others : \/ (Ext(q) = ".dds" /\ t \in {GameData \o Prefix(q) \o ".png", GameData \o Prefix(q) \o ".jpg"})
                                       \/ (Ext(q) = ".json" /\ t = GameData \o q)

(* -- game -- *)
CharOf(p) == LET pre == IF Starts(p, "assets/characters/") THEN 18 ELSE IF Starts(p, "data/characters/") THEN 16 ELSE 0
                 s == {i \in Positions(p, "/") : i > pre}
             IN IF pre = 0 \/ s = {} THEN [at |-> 0, name |-> ""] ELSE [at |-> pre, name |-> SubSeq(p, pre + 1, Min(s) - 1)]
RECURSIVE ReplaceAll(_, _, _)
ReplaceAll(p, a, b) == IF Len(p) < Len(a) THEN p
                       ELSE IF Starts(p, a) THEN b \o ReplaceAll(From(p, Len(a) + 1), a, b)
                       ELSE Ch(p, 1) \o ReplaceAll(From(p, 2), a, b)
SubstChar(known, t) ==
    \E p, q \in known : CharOf(p).name # "" /\ CharOf(q).name # ""
        /\ t = Upto(p, CharOf(p).at) \o ReplaceAll(From(p, CharOf(p).at + 1), CharOf(p).name, CharOf(q).name)

(* "base", or "skin" and a number, at the start of a string: its length *)
SkinLen(p) == IF Starts(p, "base") THEN 4
              ELSE IF Starts(p, "skin") /\ IsDigitAt(p, 5)
              THEN Max({n \in 5..Len(p) : \A k \in 5..n : IsDigitAt(p, k)}) ELSE 0
RECURSIVE MatchSkins(_, _, _)
MatchSkins(p, t, skins) ==
    IF p = "" THEN t = ""
    ELSE IF SkinLen(p) > 0 THEN \E s \in skins : Starts(t, s) /\ MatchSkins(From(p, SkinLen(p) + 1), From(t, Len(s) + 1), skins)
    ELSE t # "" /\ Ch(p, 1) = Ch(t, 1) /\ MatchSkins(From(p, 2), From(t, 2), skins)
(* .../characters/X/skins/S/...: X and S *)
SkinOf(p) == LET at == {i \in 1..Len(p) : Starts(From(p, i), "/characters/") /\
                                          LET s == {j \in Positions(p, "/") : j > i + 11}
                                          IN s # {} /\ Min(s) > i + 12 /\ Starts(From(p, Min(s)), "/skins/") /\ SkinLen(From(p, Min(s) + 7)) > 0
                                             /\ Starts(From(p, Min(s) + 7 + SkinLen(From(p, Min(s) + 7))), "/")}
             IN IF at = {} THEN [x |-> "", s |-> ""]
                ELSE LET i == Min(at)  j == Min({k \in Positions(p, "/") : k > i + 11})
                     IN [x |-> SubSeq(p, i + 12, j - 1), s |-> SubSeq(p, j + 7, j + 6 + SkinLen(From(p, j + 7)))]
SubstSkins(known, t) ==
    \E p \in known : LET o == SkinOf(p)
        IN o.x # "" /\ o.x # "sightward" /\ MatchSkins(p, t, {SkinOf(q).s : q \in {k \in known : SkinOf(k).x = o.x}})

Extension(p) == IF StemEnd(p) <= LastSlash(p) \/ Ends(p, ".") THEN 0 ELSE StemEnd(p)
SuffixAt(p) == LET e == Extension(p)  ds == {i \in Dots(p) : i < e - 1} IN IF ds = {} \/ Ch(p, e - 1) = "." THEN e ELSE Max(ds)
SubstSuffixes(known, t) ==
    LET ok == {p \in known : Extension(p) > 0}
        suffixes == {""} \cup {SubSeq(p, SuffixAt(p), Extension(p) - 1) : p \in ok}
    IN \E p \in ok, s \in suffixes : t = Upto(p, SuffixAt(p) - 1) \o s \o From(p, Extension(p))
BasePrefixes(known, prefixes, t) == \E p \in known, x \in prefixes : t = Upto(p, LastSlash(p)) \o x \o Base(p)
RECURSIVE ReplaceLangs(_, _, _)
ReplaceLangs(p, langs, b) == IF Len(p) < 5 THEN p
                             ELSE IF Upto(p, 5) \in langs THEN b \o ReplaceLangs(From(p, 6), langs, b)
                             ELSE Ch(p, 1) \o ReplaceLangs(From(p, 2), langs, b)
SubstLang(known, langs, t) == \E p \in known, b \in langs : (\E a \in langs : Has(p, a)) /\ t = ReplaceLangs(p, langs, b)

(* groups of skins: names in lexicographic order *)
Order == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Lex(_, _)
Lex(a, b) == IF a = "" THEN b # "" ELSE IF b = "" THEN FALSE
             ELSE IF Ch(a, 1) = Ch(b, 1) THEN Lex(From(a, 2), From(b, 2)) ELSE Value(Ch(a, 1)) < Value(Ch(b, 1))
SkinNumber(p) == LET o == SkinOf(p) IN IF Starts(o.s, "skin") THEN Number(From(o.s, 5)) ELSE 0
RECURSIVE Group(_, _, _)
Group(t, nums, last) ==
    IF t = ".bin" THEN last # "none"
    ELSE LET pre == "_skins_skin"  rest == From(t, Len(pre) + 1)
             len == {n \in 1..Len(rest) : \A k \in 1..n : IsDigitAt(rest, k)}
         IN Starts(t, pre) /\ len # {} /\ LET num == Upto(rest, Max(len))
            IN Plain(num) /\ Number(num) \in nums /\ (last = "none" \/ Lex(last, num)) /\ Group(From(rest, Max(len) + 1), nums, num)
SkinGroups(known, t) ==
    \E p \in known : LET o == SkinOf(p)
        IN /\ Starts(p, "assets/characters/") /\ o.x # "" /\ o.x # "sightward" /\ CharOf(p).name = o.x /\ Starts(o.s, "skin")
           /\ Starts(t, "data/" \o o.x)
           /\ Group(From(t, 6 + Len(o.x)), {0} \cup {SkinNumber(q) : q \in {k \in known : Starts(k, "assets/characters/" \o o.x \o "/skins/skin") /\ SkinOf(k).x = o.x}}, "none")
(* groups of skins with their chromas; g: [char, nums] in groups, or the root *)
RECURSIVE Items(_, _, _)
Items(t, last, acc) ==
    IF t = ".bin" THEN acc
    ELSE IF acc = {} /\ Starts(t, "_skins_root") THEN Items(From(t, 12), last, {"root"})
    ELSE LET pre == "_skins_skin"  rest == From(t, Len(pre) + 1)
             len == {n \in 1..Len(rest) : \A k \in 1..n : IsDigitAt(rest, k)}
             num == Upto(rest, Max(len))
         IN IF Starts(t, pre) /\ len # {} /\ (last = "none" \/ Lex(last, num)) THEN Items(From(rest, Max(len) + 1), num, acc \cup {num}) ELSE {"?"}
ChromaGroups(groups, t) ==
    \E g \in groups : LET its == Items(From(t, 6 + Len(g.char)), "none", {})
                           of == {SeqSet(h.nums) : h \in {h \in groups : h.char = g.char}} \cup {{"root"}}
                       IN Starts(t, "data/" \o g.char) /\ its # {} /\ its \subseteq UNION of /\ \A s \in of : s \cap its = {} \/ s \subseteq its

Chars(known) ==
    LET pre(p) == IF Starts(p, "assets/characters/") THEN 18 ELSE IF Starts(p, "data/characters/") THEN 16 ELSE IF Starts(p, "characters/") THEN 11 ELSE 0
        fin(p) == {i \in (pre(p) + 1)..Len(p) : Ch(p, i) \in {"/", "."}} \cup {Len(p) + 1}
        name(p) == SubSeq(p, pre(p) + 1, Min(fin(p)) - 1)
    IN {name(p) : p \in {k \in known : pre(k) > 0 /\ (Min(fin(k)) > Len(k) \/ Ch(k, Min(fin(k))) = "/")}} \ {""}
CharFiles(chars, t) ==
    \E x \in chars :
      LET d == "data/characters/" \o x \o "/"  a == "assets/characters/" \o x \o "/"
          n == IF x = "sightward" THEN 500 ELSE 200
          numbered(pre) == Starts(t, pre) /\ Ends(t, ".bin") /\ Len(t) > Len(pre) + 4 /\ Below(SubSeq(t, Len(pre) + 1, Len(t) - 4), IF pre = d \o "tiers/tier" THEN 10 ELSE n)
      IN \/ t \in {d \o "skins/root.bin", d \o "skins/base/" \o x \o ".skl", d \o "skins/base/" \o x \o ".skn", d \o "skins/base/" \o x \o "_tx_cm.dds",
                   d \o "tiers/root.bin", d \o x \o ".bin", d \o x \o ".ddf", d \o "hud/" \o x \o "_circle.dds", d \o "hud/" \o x \o "_square.dds",
                   a \o "hud/" \o x \o "_circle.dds", a \o "hud/" \o x \o "_square.dds", "characters/" \o x}
         \/ numbered(d \o "skins/skin") \/ numbered(d \o "animations/skin")
         \/ (Starts(x, "pet") /\ numbered(d \o "tiers/tier"))
ShaderVariants == {".dx11", ".dx9", ".dx9sm3", ".glsl", ".metal", "-dx11", "-metal"}
(* ends of shader names: .ps or .vs, with a model, or followed by . or - or nothing *)
ShaderEnds(p) == {e \in 1..Len(p) : \E s \in {".ps", ".vs"} :
    \/ Ends(Upto(p, e), s) /\ (e = Len(p) \/ Ch(p, e + 1) \in {".", "-"})
    \/ Ends(Upto(p, e), s \o "_2_0") \/ Ends(Upto(p, e), s \o "_3_0")}
ShaderFiles(known, t) ==
    \E p \in {k \in known : ShaderEnds(k) # {}} : \E v \in ShaderVariants :
        LET b == Upto(p, Max(ShaderEnds(p))) \o v
        IN t = b \/ (Starts(t, b \o "_") /\ LET n == From(t, Len(b) + 2) IN Plain(n) /\ Number(n) < 20000 /\ (n = "0" \/ Ends(n, "00")))
FromLcu(others, t) ==
    \E q \in {k \in others : Starts(k, GameData)} :
        LET r == From(q, Len(GameData) + 1)
        IN (Starts(r, "assets/") \/ Starts(r, "data/")) /\
           \/ (Ext(q) \in {".png", ".jpg"} /\ t = Prefix(r) \o ".dds")
           \/ (Ext(q) = ".json" /\ t = r)

(* -- client patterns -- *)
Perks == {8000, 8100, 8200, 8300, 8400, 8500}
Ns(S) == {ToString(n) : n \in S}
PerkImages == "plugins/rcp-fe-lol-perks/global/default/images/"
Cards(i) == {PerkImages \o "inventory-card/" \o ToString(i) \o "/p" \o ToString(i) \o "_s" \o j \o "_k" \o k \o ".jpg" :
             j \in Ns({0} \cup Perks), k \in Ns({0} \cup (i..(i + 99)))}
Constructs(i) == {PerkImages \o "construct/" \o ToString(i) \o "/" \o f :
                  f \in {"environment.jpg", "construct.png"} \cup {"keystones/" \o j \o ".png" : j \in Ns(i..(i + 99))} \cup {"second/" \o j \o ".png" : j \in Ns(Perks)}}
Heads(S) == {Upto(l, 2) : l \in S}
Tails(S) == {From(l, 4) : l \in S}
Sanitizer == {"plugins/rcp-be-sanitizer/global/default/" \o f : f \in
    {i \o "." \o a \o k \o ".csv" : i \in Ns(0..4), a \in {"filter", "unfilter", "whitelist"},
        k \in {""} \cup {".language." \o x : x \in Heads(Languages)} \cup {".country." \o x : x \in Tails(Languages)}
               \cup {".region." \o x : x \in Regions} \cup {".locale." \o x : x \in Languages}}
    \cup {p \o k \o ".txt" : p \in {"allowedchars", "breakingchars", "projectedchars", "projectedchars1337", "punctuationchars", "variantaliases"},
          k \in {".locale." \o x : x \in Languages} \cup {".language." \o x : x \in Heads(Languages)}}}
PatternPaths == UNION {Cards(i) \cup Constructs(i) : i \in Perks} \cup Sanitizer

LootIcons == "plugins/rcp-fe-lol-loot/global/default/assets/loot_item_icons/"
Splash(known, t) == \E p \in known : Starts(p, LootIcons) /\ Ends(p, ".png") /\ t = Upto(p, Len(p) - 4) \o "_splash.png"

(* -- mentions in archive content: dirs are the known directories -- *)
GrepLcu(form, x, y, dirs) ==
    CASE form = "fe" -> {Plugins \o "rcp-fe-" \o Upto(x, Min(Positions(x, "/"))) \o "global/default/" \o From(x, Min(Positions(x, "/")) + 1)}
      [] form = "data" -> {GameData \o "data/" \o x}                 (* /DATA/x *)
      [] form = "assets" -> {GameData \o x}                          (* /lol-game-data/assets/x *)
      [] form \in {"relative", "quoted"} -> {d \o "/" \o x : d \in dirs}
      [] form = "template" -> {d \o "/" \o x \o "/template.html" : d \in dirs}
      [] form = "map" -> {d \o "/" \o x : d \in dirs}                (* sourceMappingURL=x.map *)
      [] form = "hextech" -> {GameData \o "v1/hextech-images/" \o x \o ".png"}
      [] form = "plugin" -> {Plugins \o x \o "/global/default/" \o f : f \in {"index.html", "init.js", "init.js.map", "bundle.js", "trans.json", "css/main.css", "license.json"}}
      [] form = "champion" -> {GameData \o "v1/champions/" \o x \o ".json", GameData \o "v1/champion-splashes/" \o x \o "/metadata.json"}
      [] form = "splash" -> {Plugins \o "rcp-fe-lol-splash/global/default/splash-assets/" \o x \o "/" \o f : f \in {"config.json", y}}
      [] form = "item" -> {Upto(GameData, Len(GameData) - 1) \o x}
      [] OTHER -> {}
Luas(x) == {x, Upto(x, Len(x) - 4) \o ".luabin", Upto(x, Len(x) - 4) \o ".luabin64"}
Up1(x) == IF LastSlash(x) = 0 THEN x ELSE DirOf(x)
ShaderExts == {".ps_2_0", ".ps_3_0", ".vs_2_0", ".vs_3_0", ".ps", ".vs"}
GrepBin(x) ==
    IF Starts(x, "characters/") THEN {x, "assets/" \o x, "data/" \o x}
    ELSE IF Ends(x, ".lua") THEN Luas(x) \cup {Upto(x, Len(x) - 4) \o ".preload"}
    ELSE IF Starts(x, "shaders/") THEN {"assets/shaders/generated/" \o x \o e \o v : e \in ShaderExts, v \in ShaderVariants \cup {""}}
    ELSE IF Starts(x, "maps/mapgeometry/") THEN {"data/" \o x \o ".mapgeo", "data/" \o x \o ".materials.bin"}
    ELSE IF \E s \in {"clientstates/", "patching/", "loadouts/", "maps/"} : Starts(x, s) THEN {x, Up1(x), Up1(Up1(x))}
    ELSE {x} \cup (IF Ends(x, ".png") THEN {Upto(x, Len(x) - 4) \o ".dds"} ELSE {})
RECURSIVE Normal(_, _)
Normal(d, x) == IF Starts(x, "../") THEN Normal(DirOf(d), From(x, 4)) ELSE IF Starts(x, "./") THEN Normal(d, From(x, 3)) ELSE d \o "/" \o x
GrepGame(form, x, file) ==
    CASE form = "bin" -> GrepBin(x)
      [] form = "preload" -> IF Ends(x, ".lua") THEN Luas(x)
                             ELSE IF Ends(x, ".troy") THEN {"data/shared/particles/" \o Upto(x, Len(x) - 5) \o ".troybin"}
                             ELSE {DirOf(file) \o "/" \o x \o ".preload"}
      [] form = "include" -> {Normal(DirOf(file), x)}
      [] form = "atlas" -> {DirOf(file) \o "/" \o x}
      [] form = "text" -> IF Ends(x, ".lua") THEN Luas(x) \cup {Upto(x, Len(x) - 4) \o ".preload"} ELSE {x}
      [] OTHER -> {}

(* -- all methods; a: arguments -- *)
Promised(m, a, known, t) ==
    CASE m = "basenames" -> SubstBasenames(known, t)
      [] m = "names" -> Basenames(known, a.names, t)
      [] m = "numbers" -> SubstNumbers(known, a.nmax, a.digits, t)
      [] m = "words" -> SubstWords({p \in known : Starts(p, a.plugin) /\ Ends(p, a.ext)}, IF a.words = {} THEN Words(known) ELSE a.words, a.nold, a.nnew, t)
      [] m = "addword" -> AddWord({p \in known : \A x \in a.without : ~Has(p, x)}, Words(known), t)
      [] m = "ext" -> SubstExt(known, t)
      [] m = "regionlang" -> RegionLang(known, t)
      [] m = "plugin" -> SubstPlugin(known, t)
      [] m = "fromgame" -> FromGame(a.others, t)
      [] m = "fromlcu" -> FromLcu(a.others, t)
      [] m = "character" -> SubstChar(known, t)
      [] m = "skins" -> SubstSkins(known, t)
      [] m = "suffixes" -> SubstSuffixes(known, t)
      [] m = "prefixes" -> BasePrefixes(known, a.prefixes, t)
      [] m = "lang" -> SubstLang(known, Languages, t)
      [] m = "groups" -> SkinGroups(known, t)
      [] m = "chromas" -> ChromaGroups(a.groups, t)
      [] m = "charfiles" -> CharFiles(IF a.chars = {} THEN Chars(known) ELSE a.chars, t)
      [] m = "shaders" -> ShaderFiles(known, t)
      [] m = "patterns" -> t \in PatternPaths \/ Splash(known, t)
      [] OTHER -> FALSE
=============================================================================
