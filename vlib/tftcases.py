"""Random game data of TFT and Arena"""
from .tftdrv import V, F, boolean, entry, hashed, lst, mp, num, path, ref, struct_, text

LANGS = ["en_us", "fr_fr", "xx_yy", "ko_kr"]
GV = [914, 922, 923, 1007, 1008, 1305, 1314, 1414, 1415, 1501, 1502, 1503, 9999]
NAMES = ["Name A", "name b", "Desc C", "tft_key_1", "TFT_Key_2", "Text é \"q\"", "a=b", "x/y", "Template", "k1", "k2", "k3"]
VALUES = ["Traduit é", "日本", "", "line\nbreak", "a \"b\" = \"c\"", "<br>/\\", "%x%", "😀"]
PATHS = ["assets/a/icon.dds", "assets/b/Icon2.TEX", "assets/c/x.png", "assets/d.e/f", "{00000000000000ab}", "assets/g.dds.tex"]
HASHES = ["MinDamage", "tag_a", "Tag_B", "{0badf00d}", "Health"]


class Gen:
    def __init__(self, rng, gv):
        self.rng, self.gv = rng, gv
        self.k = 0

    def maybe(self, v, p=.7):
        return v() if self.rng.random() < p else None

    def fl(self):
        return num(self.rng.choice([0, 1, 2.5, .1, -3, 100, 25000, 1e-4, 16777216, 0.3333]))

    def u(self, b="U32"):
        return num(self.rng.choice([0, 1, 2, 3, 7, 9, 25, 100]), b)

    def tra(self):
        return text(self.rng.choice(NAMES + [""] * 1))

    def icon(self):
        p = self.rng.choice(PATHS)
        return path(p) if self.gv >= 923 and self.rng.random() < .6 else text(p if not p.startswith("{") else "ASSETS/Z.dds")

    def list_(self, vt, kids):
        return lst(vt, kids, "LIST2" if self.gv >= 1008 and self.rng.random() < .3 else "LIST")

    def refs(self, pool, p=.5, dangling=.1, b="LINK", shuffle=True):
        ps = [x for x in pool if self.rng.random() < p]
        if self.rng.random() < dangling:
            ps.append(self.rng.choice(["Missing/%d" % self.rng.randrange(9), "{12345678}"]))
        if shuffle:
            self.rng.shuffle(ps)
        return self.list_(b, [ref(x) | {"b": b} for x in ps])

    def effects(self):
        rng = self.rng
        how = rng.randrange(4)
        if how == 0:
            return F()
        if how == 1:
            hs = rng.sample(HASHES, rng.randrange(4))
            con = struct_("TftConstants", F(__df085b93=mp("HASH", "STRUCT", [(h, struct_("C", F(mValue=self.maybe(self.fl, .9)), "STRUCT")) for h in hs])) if rng.random() < .9 else F(Other=self.u()))
            return F(constants=con)
        ns = [rng.choice([text, hashed])(n) for n in rng.sample(HASHES[:3] + ["eff1", "eff2"], rng.randrange(4))] + [text("eff1")] * (rng.random() < .1)
        return F(effectAmounts=self.list_("EMBEDDED", [struct_("E", F(name=n, value=self.maybe(self.fl, .9))) for n in ns]))

    def trait(self, p, name):
        rng = self.rng
        old = rng.random() < .4
        pre = "m" if old else ""
        sets = self.list_("EMBEDDED", [struct_("TS", F(**{pre + "MinUnits": self.maybe(self.u), pre + "MaxUnits": self.maybe(self.u), pre + "Style": self.maybe(self.u)}) + self.effects()) for _ in range(rng.randrange(4))])
        return entry(p, "TftTraitData", F(mName=text(name), mDisplayNameTra=self.maybe(self.tra, .9), mDescriptionNameTra=self.maybe(self.tra, .8), mIconPath=self.maybe(self.icon, .9),
                                          InnateTraitSets=self.maybe(lambda: self.list_("EMBEDDED", [struct_("I", self.effects()) for _ in range(rng.randrange(3))]), .4))
                     + (F(mTraitSets=sets) if old else F(mConditionalTraitSets=sets) if rng.random() < .8 else []))

    def item(self, p, name, items, traits, bad):
        rng = self.rng
        return entry(p, "TftItemData", F(mName=text(name), mId=self.maybe(lambda: self.u("S32"), .5), mDisplayNameTra=self.maybe(self.tra, .9), mDescriptionNameTra=self.maybe(self.tra, .8),
                                         mIconPath=self.maybe(self.icon, .9), IsAugment=self.maybe(lambda: boolean(rng.random() < .6), .6), mIsUnique=self.maybe(lambda: boolean(rng.random() < .5), .4),
                                         mComposition=self.maybe(lambda: self.refs(items, .4, bad), .5), AssociatedTraits=self.maybe(lambda: self.refs(traits, .4, bad), .4),
                                         IncompatibleTraits=self.maybe(lambda: self.refs(traits, .4, bad), .3),
                                         ItemTags=self.maybe(lambda: self.list_("HASH", [hashed(h) for h in rng.sample(HASHES, rng.randrange(3))]), .4)) + self.effects())

    def stat(self, new, old):
        how = self.rng.randrange(4)
        f = lambda: num(self.rng.choice([0, 1, 50, 179, 180, 200.5, 539, 540, 720, .75, 1000]))    # noqa
        ret = F(**{old: f()}) if how != 1 else []
        if how in (0, 1):
            ret += F(**{new: struct_("GameModifiable", F(BaseValue=self.maybe(f, .85)))})
        self.rng.shuffle(ret)
        return ret if how != 3 or self.rng.random() < .6 else []

    def character(self, name, traits, roles, bad):
        """Entries of the file of a character"""
        rng = self.rng
        spells = ["Spells/%s/%d" % (name, i) for i in range(rng.choice([0, 1, 2]))]
        script = lambda i: rng.choice([str, str.lower, str.upper])("%sSpell%d" % (name, i))     # noqa
        es = []
        for i, p in enumerate(spells):
            old = rng.random() < .4
            vals = lambda: self.list_("FLOAT", [self.fl() for _ in range(rng.randrange(4))])    # noqa
            data = self.list_("EMBEDDED", [struct_("V", F(**{"mName" if old else "name": text("v%d" % k), "mValues" if old else "values": self.maybe(vals, .9)})) for k in range(rng.randrange(3))])
            loc = mp("STRING", "STRING", [(k, self.tra()) for k in ("keyName", "keyTooltip", "keyOther") if rng.random() < .7])
            client = struct_("CD", F(mTooltipData=self.maybe(lambda: struct_("TD", F(mLocKeys=self.maybe(lambda: loc, .9)), "STRUCT"), .9)))
            es.append(entry(p, "SpellObject", F(mScriptName=self.maybe(lambda: text(script(i)), .95),
                                                mSpell=struct_("SD", F(**{"mDataValues" if old else "DataValues": self.maybe(lambda: data, .8), "mClientData": self.maybe(lambda: client, .7)}), "STRUCT"))))
        rec = F(mCharacterName=text(name.upper()), tier=self.maybe(lambda: self.u("U8"), .4), CharacterRole=self.maybe(lambda: ref(rng.choice(roles) if rng.random() > bad and roles else "Roles/None"), .3 if roles or bad else 0),
                mInitialMana=self.maybe(self.fl, .6), critDamageMultiplier=self.maybe(self.fl, .6), baseCritChance=self.maybe(self.fl, .6))
        how = rng.randrange(8)
        sp = spells[:]
        rng.shuffle(sp)
        if how < 4:
            rec += F(spells=self.list_("LINK", [ref(x) for x in ([""] if rng.random() < .4 else []) + sp + ([""] if rng.random() < .3 else [])] if how else [ref(""), ref("Spells/none")][:rng.randrange(3)]))
        if how in (3, 4, 5, 6):
            rec += F(spellNames=self.list_("STRING", [text(rng.choice(["", "x/", "Characters/a/Spells/"]) + script(rng.randrange(3))), text("other")]))
        if rng.random() < .7:
            pool = traits + ["Missing/T"]
            pick = rng.sample(pool, rng.randrange(min(3, len(pool)) + 1))
            rec += F(mLinkedTraits=self.list_("LINK", [ref(x) for x in pick]) if rng.random() < .5 else
                     self.list_("EMBEDDED", [struct_("TC", F(TraitData=ref(x), Count=self.maybe(self.u, .5))) for x in pick]))
        if rng.random() < .6:
            rec += F(primaryAbilityResource=struct_("AR", F(arBase=self.maybe(self.fl, .6), __726ee5cd=self.maybe(lambda: struct_("GM", F(BaseValue=self.maybe(self.fl, .7))), .4))))
        for new, old in (("baseHPModifiable", "baseHP"), ("baseDamageModifiable", "BaseDamage"), ("baseArmorModifiable", "baseArmor"), ("baseMR", "baseSpellBlock"),
                         ("attackSpeedModifiable", "attackSpeed"), ("attackRangeModifiable", "attackRange")):
            rec += self.stat(new, old)
        if rng.random() < .93:
            es.insert(rng.randrange(len(es) + 1), entry("Characters/%s/Record" % name, "TFTCharacterRecord", rec))
        if rng.random() < .3:
            es.insert(0, entry("Characters/%s/Other" % name, rng.choice(["CharacterRecord", "SpellData"]), F(mScriptName=text(name), tier=self.u())))
        return es

    def tft(self):
        """Entries of the map, files of characters"""
        rng = self.rng
        bad = rng.choice([0, 0, 0, .15])
        es, files = [], []
        traits = ["Traits/T%d" % i for i in range(rng.randrange(5))]
        for i, p in enumerate(traits):
            es.append(self.trait(p, rng.choice(["TFT_Trait_%d", "TFT_Trait_%d", "TFT_Trait_%d", "TFTTemplate_%d"]) % i))
        items = ["Items/I%d" % i for i in range(rng.randrange(5))]
        for i, p in enumerate(items):
            n = "TFT_Item_%d" % i if i + 1 < len(items) or rng.random() < .7 else rng.choice(["TFT_Item_Null", "TFT_ItemTemplate", "Template_x"])
            ok = items[:-1] if n.startswith("TFT_Item_%d" % i) or not bad else items
            es.append(self.item(p, n, ok if bad or i + 1 < len(items) else [], traits, bad))
        roles = ["Roles/R%d" % i for i in range(rng.randrange(3))]
        es += [entry(p, "TFTCharacterRoleData", F(name=text("Role %s" % p[-1]))) for p in roles]
        names = ["TFT%d_Champ%s" % (rng.choice([1, 5]), c) for c in "ABCDE"[:rng.randrange(6)]]
        chars = []
        for n in names:
            case = lambda: rng.choice([str, str.lower, str.upper])(n)     # noqa
            if rng.random() < .92:
                chars.append("Characters/" + n)
                es.append(entry(chars[-1], rng.choice(["Character", "TftCharacter"]), F(name=text(case()))))
            if rng.random() < .92:
                es.append(entry("Shops/" + n, "TftShopData", F(mName=text(case()), mDisplayNameTra=self.maybe(self.tra, .9), mRarity=self.maybe(lambda: num(rng.choice([0, 1, 4, 5, 6, 7, 12]), "U8"), .7),
                    PcSplashPath=self.maybe(self.icon, .5), mIconPath=self.maybe(self.icon, .7), TeamPlannerPortraitPath=self.maybe(self.icon, .7), SquareSplashPath=self.maybe(self.icon, .6),
                    mAbilityNameTra=self.maybe(self.tra, .5), mDescriptionTra=self.maybe(self.tra, .5), AbilityIconPath=self.maybe(self.icon, .5), mPortraitIconPath=self.maybe(self.icon, .6))))
            for where, p in (("characters", .5), ("data", .7)):
                if rng.random() < p:
                    files.append({"name": n.lower(), "where": where, "entries": self.character(n, traits, roles, bad)})
        if rng.random() < .4:
            if rng.random() < .8:
                chars.append("Characters/template")
                es.append(entry(chars[-1], "Character", F(name=text("TFT_Template"))))
            es.append(entry("Shops/t", "TftShopData", F(mName=text(rng.choice(["TFT_Template", "tft_template"])))))
            files.append({"name": "tft_template", "where": "data", "entries": self.character("tft_template", traits, roles, 0)})
        clists = ["CharLists/L%d" % i for i in range(rng.choice([0, 1, 2, 3]))]
        tlists = ["TraitLists/L%d" % i for i in range(rng.choice([0, 1, 2]))]
        old = rng.random() < .15
        for i, p in enumerate(clists):
            cs = self.refs(chars, .5)
            if old:     # one is the longest
                cs = self.list_("LINK", [ref(x) for x in (chars + ["Missing/C"])[:max(0, len(chars) + 1 - i)]])
            es.append(entry(p, rng.choice(["MapCharacterList", "TftCharacterList"]), F(Characters=cs)))
        for i, p in enumerate(tlists):
            ts = self.refs(traits, .5)
            if old:
                ts = self.list_("LINK", [ref(x) for x in (traits + ["Missing/T"])[:max(0, len(traits) + 1 - i)]])
            es.append(entry(p, "TftTraitList", F(mTraits=ts)))
        if not old:
            ilists = ["ItemLists/L%d" % i for i in range(rng.randrange(3))]
            es += [entry(p, "TFTItemList", F(mItems=self.maybe(lambda: self.refs(items[:-1], .6), .9))) for p in ilists]
            for i in range(rng.choice([1, 1, 2, 2, 3])):
                name = struct_("S", F(mValue=self.maybe(lambda: text("Set %d" % i), .95)))
                cl = self.refs(clists, .7) if clists else None
                where = rng.choice([["characterLists"], ["tftCharacterLists"], ["characterLists", "tftCharacterLists"]])
                halves = {w: cl if len(where) == 1 else self.refs(clists, .5) for w in where} if cl else {}
                es.append(entry("Sets/S%d" % i, "TFTSetData", F(number=self.maybe(lambda: num(rng.choice([i + 1, i + 1, 1]), "U32"), .95), Mutator=self.maybe(lambda: text("TFTSet%d" % i), .7),
                    name=self.maybe(lambda: text("SetName%d" % i), .8), TraitLists=self.maybe(lambda: self.refs(tlists, .7), .95), ItemLists=self.maybe(lambda: self.refs(ilists, .7), .8),
                    ScriptData=mp("STRING", "STRUCT", [(k, v | {"b": "STRUCT"}) for k, v in (("Other", struct_("S", F(mValue=text("no")))), ("SetName", name))]), **halves)))
        if rng.random() < .5:
            rng.shuffle(es)
        if rng.random() < .4:
            es.insert(0, entry("Maps/x", "MapThing", F(mName=text("Template"), number=self.u())))
        return es, files

    def calc(self, depth=2):
        rng = self.rng
        return struct_(rng.choice(["GameCalculation", "Part"]), F(mFormulaParts=self.maybe(lambda: self.list_("STRUCT", [self.calc(depth - 1) | {"b": "STRUCT"} for _ in range(rng.randrange(3))]), .6 if depth else 0),
                       mStat=self.maybe(lambda: self.u("U8"), .4), mDataValue=self.maybe(lambda: hashed(rng.choice(HASHES)), .5), mPercent=self.maybe(lambda: boolean(rng.random() < .5), .4), mNumber=self.maybe(self.fl, .5),
                       mText=self.maybe(self.tra, .3)))

    def arena(self):
        rng = self.rng
        bad = rng.choice([0, 0, .15])
        es = []
        spells = ["Spells/A%d" % i for i in range(rng.randrange(4))]
        for p in spells:
            old = rng.random() < .5
            vals = lambda: self.list_("FLOAT", [self.fl() for _ in range(rng.randrange(1, 4))])    # noqa
            data = self.list_("EMBEDDED", [struct_("V", F(**{"mName" if old else "name": text("v%d" % k), "mValues" if old else "values": vals()})) for k in range(rng.randrange(4))])
            calcs = mp("HASH", "STRUCT", [(h, self.calc() | {"b": "STRUCT"}) for h in rng.sample(HASHES, rng.randrange(3))])
            es.append(entry(p, "SpellObject", F(mSpell=struct_("SD", F(**{"mDataValues" if old else "DataValues": self.maybe(lambda: data, .8), "mSpellCalculations": self.maybe(lambda: calcs, .7)}), "STRUCT"))))
        for i in range(rng.randrange(5)):
            es.append(entry("Augments/%d" % i, "AugmentData", F(enabled=self.maybe(lambda: boolean(rng.random() < .6), .6), AugmentPlatformId=self.maybe(self.u, .9), AugmentNameId=text("Augment%d" % i),
                NameTra=self.maybe(self.tra, .9), DescriptionTra=self.maybe(self.tra, .8), AugmentTooltipTra=self.maybe(self.tra, .7), AugmentSmallIconPath=self.maybe(self.icon, .9),
                AugmentLargeIconPath=self.maybe(self.icon, .9), rarity=self.maybe(lambda: self.u("U8"), .6),
                RootSpell=self.maybe(lambda: ref(rng.choice(spells) if spells and rng.random() > bad else "Spells/none"), .8 if spells or bad else 0))))
        if rng.random() < .5:
            rng.shuffle(es)
        return es

    def tables(self):
        """[format, lang, pairs] of each string table"""
        rng = self.rng
        pool = {"tft": .5, "lol": .5, "main": .3, "menu": .3, "font": .3}
        if self.gv < 1000:
            pool = {"tft": 0, "lol": 0, "main": .1, "menu": .4, "font": .8}
        elif rng.random() < .7:
            pool.update(tft=1, lol=1)
        ret = []
        for f, p in pool.items():
            for lang in LANGS:
                if rng.random() < p * .75:
                    ks = {}
                    for k in rng.sample(NAMES, rng.randrange(len(NAMES) + 1)):
                        if f == "font" and ("\"" in k or "=" in k):
                            continue
                        k = rng.choice([str, str, str.lower, str.upper])(k) if k.isascii() else k
                        v = rng.choice(VALUES + NAMES + ["%s in %s of %s" % (k, lang, f)] * 8)
                        ks[k.lower() if f != "font" else k] = (k, v.replace("\n", " ").replace("\"", "'") if f == "font" else v)
                    ret.append([f, lang, list(ks.values())])
        return ret
