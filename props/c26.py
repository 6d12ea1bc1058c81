"""C26: BIN decoding reproduces the stored data in every format version"""
import json
import os
import re
import struct

from vlib import binbuild as BB

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): executable specification of the BIN format and of its JSON form, model checked against writing; files decoded by the real code compared by TLC, byte by byte"
NOTE = ("The specification decodes a file from its bytes, for any version of files and type codes. TLC checks that it reads back whatever is written and rejects cut files, "
        "generates files, and then decodes every file given to the real code (generated, random or damaged) to compare values, JSON output of the converter and of bin-dump, the text dump read back, "
        "and field access.")
RULE = ("files from TLC and random ones with all types nested, all eras of type codes around their boundaries, patch files; one or two random damages on a third of them; "
        "names known or not; access by names of any case, hashes and name objects; non-trivial: an accepted file with a nested value")
ASSUMPTIONS = ["keys of maps are text, hashes or integers as for JSON", "sizes of nested values are not used by readers", "NaN payloads are not kept"]
TRACE = "Trace_C26"
WORDS = ["mName", "mValue", "a", "b", "Skins", "mIcon", "x1", "tail", "Other", "zzz", "mList", "k"]
ENTRIES = ["Characters/Annie", "Maps/Map1", "e", "Items/5", "F"]
ERAS = [900, 915, 922, 923, 924, 1000, 1007, 1008, 1009, 1023, 1418, 9999]


def fnv(s):
    h = 0x811c9dc5
    for b in s.lower().encode():
        h = ((h ^ b) * 0x01000193) & 0xffffffff
    return struct.pack("<L", h)


def designs(g):
    yield "MC_Bin", "MC_Bin_thorough.cfg" if g.thorough else "MC_Bin.cfg", {"workers": 8, "timeout": 1500}


def names(rng):
    """Known names of each list"""
    ret = {}
    for k, words in (("fields", WORDS), ("types", WORDS), ("hashes", WORDS + ENTRIES), ("entries", ENTRIES)):
        ret[k] = [[fnv(w), w] for w in words if rng.random() < .6]
    ret["paths"] = [[bytes([i] * 8), f"assets/p{i}.dds"] for i in range(4) if rng.random() < .7]
    return ret


def pools():
    return {"fields": [fnv(w) for w in WORDS] + [b"\1\0\0\0", b"\xff\xff\xff\xff"], "types": [fnv(w) for w in WORDS] + [b"\0\1\0\0"],
            "hashes": [fnv(w) for w in WORDS + ENTRIES] + [b"\0\0\0\0"], "entries": [fnv(w) for w in ENTRIES], "paths": [bytes([i] * 8) for i in range(5)]}


def cases(g):
    rng = g.rng
    scen = g.scenarios("MC_Bin", "MC_Bin_gen.cfg", simulate=g.pick(150, 1500), depth=13)
    rng.shuffle(scen)
    files = [(s["tv"], bytes(int(x) for x in re.findall(r"\d+", s["bytes"]))) for s in scen[:g.pick(220, 3000)]]
    for _ in range(g.pick(520, 8000)):
        tv = rng.choice(ERAS)
        files.append((tv, BB.Gen(rng, tv, pools(), rng.choice([1, 2, 3])).file()))
    for tv, data in files:
        if len(data) > 900:
            continue
        if rng.random() < .35:
            for _ in range(rng.choice([1, 1, 2])):
                data = BB.damage(rng, data)
        elif rng.random() < .08:
            tv = rng.choice(ERAS)
        yield {"data": data, "tv": tv, "default": tv >= 1008 and rng.random() < .2, "cli": rng.random() < .4, "names": names(rng), "n": rng.randrange(1 << 30)}


def nontrivial(case, trace):
    return any(k["kids"] and k["kids"][0]["kids"] for e in trace["ev"] if e["op"] == "decode" and e["status"] == "ok" for x in e["entries"] for k in [x])


def run(case, env):
    import io
    import random

    import cdtb.binfile as B
    from cdtb.export import BinConverter
    from vlib import guard
    rng = random.Random(case["n"])
    data, tv = case["data"], case["tv"]
    lists = {"fields": B.hashfile_binfields, "types": B.hashfile_bintypes, "hashes": B.hashfile_binhashes, "entries": B.hashfile_binentries, "paths": B.hashfile_binpaths}
    for k, hf in lists.items():
        hf.hashes = {int.from_bytes(h, "little"): n for h, n in case["names"][k]}
    tlc_names = {k: [[list(h), list(n.encode())] for h, n in v] for k, v in case["names"].items()}
    ev = []
    path = env.path("f.bin")
    with guard.disabled():
        with open(path, "wb") as f:
            f.write(data)
    # values
    kw = {} if case["default"] else {"btype_version": tv}
    st, bf = env.call(lambda: B.BinFile(path if case["n"] % 2 else io.BytesIO(data), **kw))
    e = {"op": "decode", "bytes": list(data), "tv": tv, "status": "ok" if st == "ok" else "raised"}
    if st == "ok":
        e.update(version=list(struct.pack("<L", bf.version)), hasLinked=bf.linked_files is not None, linked=[list(x.encode()) for x in bf.linked_files or ()],
                 hasPatches=bf.patch_entries is not None)
        e["entries"] = BB.ints([BB.node("ENTRY", "", struct.pack("<LL", x.path.h, x.type.h), [BB.field(f) for f in x.fields]) for x in bf.entries])
        e["patches"] = BB.ints([BB.node("PATCH", "", struct.pack("<L", x.path.h), [BB.node("PFIELD", "", f.path.encode(), [BB.observed(f.type.name, f.value)]) for f in x.fields])
                                for x in bf.patch_entries or ()])
    ev.append(e)
    # access
    if st == "ok":
        objs = []

        def walk(v):
            if isinstance(v, B.BinObjectWithFields):
                objs.append(v)
                for f in v.fields:
                    walk(f.value)
            elif isinstance(v, B.BinList):
                for x in v.values:
                    walk(x)
        for x in bf.entries:
            walk(x)
        hs = lambda o: [list(struct.pack("<L", f.name.h)) for f in o.fields]   # noqa

        def plain(v):
            return v.values if isinstance(v, (B.BinList, B.BinMap)) else v.value if isinstance(v, B.BinOption) else v

        def same(a, b):
            return a is b or (type(a) is type(b) and not isinstance(a, B.BinHashBase) and a == b) or (isinstance(a, B.BinHashBase) and isinstance(b, B.BinHashBase) and a.h == b.h)

        def key(o):
            how = rng.randrange(4)
            have = [f.name.h for f in o.fields]
            if how == 0:
                w = rng.choice(WORDS)
                w = rng.choice([w, w.lower(), w.upper()])
                return w, {"how": "name", "b": list(w.encode())}
            h = rng.choice(have or [5]) if rng.random() < .7 else rng.choice([1, 0xffffffff, int.from_bytes(fnv(rng.choice(WORDS)), "little")])
            k = {"how": "hash", "b": list(struct.pack("<L", h))}
            return (h, k) if how < 3 else (rng.choice([B.BinFieldName, B.BinHashValue])(h), k)
        NO = object()
        rng.shuffle(objs)
        for o in objs[:3]:
            for _ in range(4):
                k, tk = key(o)
                at = [i + 1 for i, f in enumerate(o.fields)]

                def index(f):
                    return next((i + 1 for i, x in enumerate(o.fields) if x is f), 99)
                s1, v1 = env.call(lambda: o[k])
                s2, v2 = env.call(lambda: k in o)
                s3, v3 = env.call(lambda: o.get(k, NO))
                s4, v4 = env.call(lambda: o.getv(k, NO))
                ev.append({"op": "access", "hashes": hs(o), "key": tk, "at": index(v1) if s1 == "ok" else 0 if v1 == "KeyError" else 98, "contains": v2 if s2 == "ok" else not o.fields,
                           "get": 0 if v3 is NO else index(v3) if s3 == "ok" else 98,
                           "getv": [0] if v4 is NO else [i for i in at if same(plain(o.fields[i - 1].value), v4)] if s4 == "ok" else []})
            k, tk = key(o)
            f = next((f for f in o.fields if f.name.h == int.from_bytes(bytes(tk["b"]), "little")), None) if tk["how"] == "hash" else None
            if f is not None and isinstance(f.value, B.BinObjectWithFields):
                k2, tk2 = key(f.value)
                s, v = env.call(lambda: o.get_path(k, k2, default=NO))
                ev.append({"op": "path", "hashes": hs(o), "key": tk, "subs": hs(f.value), "key2": tk2,
                           "got": [0] if v is NO else [i + 1 for i, x in enumerate(f.value.fields) if same(plain(x.value), v)] if s == "ok" else []})
            if tk["how"] == "hash":
                before, new = hs(o), B.BinField(int.from_bytes(bytes(tk["b"]), "little"), B.BinType.U8, 5)
                s, v = env.call(o.__setitem__, k, new)
                ev.append({"op": "set", "hashes": before, "key": tk, "after": hs(o) if s == "ok" else [], "replaced": next((i + 1 for i, x in enumerate(o.fields) if x is new), 0)})
    # comparisons of hashed values
    import xxhash
    lower64 = lambda w: struct.pack("<Q", xxhash.xxh64_intdigest(w.lower()))   # noqa
    for _ in range(4):
        kind, cls = rng.choice([("fields", B.BinFieldName), ("types", B.BinTypeName), ("hashes", B.BinHashValue), ("entries", B.BinEntryPath), ("paths", B.BinPathValue)])
        wide = kind == "paths"
        texts = [n for _, n in case["names"][kind]][:3] + WORDS[:2] + ENTRIES[:2] + ["assets/p0.dds", "Assets/P9.dds"]
        w = rng.choice(texts)
        h = rng.choice([lower64(w) if wide else fnv(w)] * 2 + [rng.choice(pools()[kind])])
        how = rng.choice(["text", "text", "text", "int", "value"])
        if how == "text":
            o = rng.choice([w, w.lower(), w.upper(), rng.choice(texts)])
            other = {"how": how, "b": list(o.encode()), "hash": list(lower64(o)) if wide else []}
        else:
            o = rng.choice([h, h, h[:-1] + bytes([h[-1] ^ 1])])
            other = {"how": how, "b": list(o), "hash": []}
            o = int.from_bytes(o, "little")
            o = o if how == "int" else cls(o)
        s, v = env.call(lambda: (cls(int.from_bytes(h, "little")) == o, cls(int.from_bytes(h, "little")) != o, cls(int.from_bytes(h, "little")) in {o}))
        ev.append({"op": "eq", "names": tlc_names[kind], "hash": list(h), "other": other, "wide": wide, "status": s, "eq": v[0] if s == "ok" else False, "ne": v[1] if s == "ok" else False,
                   "in": v[2] if s == "ok" else False})
    # text
    text, bf2 = None, None
    if st == "ok":
        bf2 = B.BinFile(io.BytesIO(data), **kw)      # fields may have been set
    if bf2 and not any(BB.has_raw_text(BB.node("ENTRY", "", b"", [BB.field(f) for f in x.fields])) for x in bf2.entries) and not any(
            BB.has_raw_text(BB.node("PFIELD", "", f.path.encode(), [BB.observed(f.type.name, f.value)])) for x in bf2.patch_entries or () for f in x.fields):
        if case["cli"]:
            s, text, err = env.cli(["bin-dump"] + ([] if case["default"] else ["-V", f"{tv // 100}.{tv % 100}" if tv < 9999 else "main"]) + [path])
        else:
            f = io.StringIO()
            s, v = env.call(bf2.dump, f)
            text = f.getvalue()
        e = {"op": "text", "bytes": list(data), "tv": tv, "names": tlc_names, "status": s}
        if s == "ok":
            try:
                e.update(BB.TextDump(text, {k: {n: h for h, n in v} for k, v in case["names"].items()}).file())
            except (BB.Unreadable, ValueError, SyntaxError, NameError, struct.error, TypeError) as err:
                e.update(status="unreadable", why=str(err))
        ev.append(e)
    # JSON
    e = {"op": "json", "bytes": list(data), "tv": tv, "names": tlc_names}
    if case["cli"]:
        args = ["bin-dump", "-j", path]
        if not case["default"]:
            args[1:1] = ["-V", f"{tv // 100}.{tv % 100}" if tv < 9999 else "main"]
        st, out, err = env.cli(args)
        if st == "ok":
            dst, _, _ = env.cli(args[:1] + args[2:] if args[1] == "-j" else [a for a in args if a != "-j"])
            st = dst
    else:
        out_dir = env.path("out")
        conv = BinConverter(re.compile("x"), tv)
        st, v = env.call(conv.convert, io.BytesIO(data), out_dir, "d/f.bin")
        out = ""
        with guard.disabled():
            if os.path.exists(os.path.join(out_dir, "d/f.bin.json")):
                with open(os.path.join(out_dir, "d/f.bin.json"), encoding="ascii") as f:
                    out = f.read()
            elif st == "ok":
                st = "missing"
            with open(os.path.join(out_dir, "d/f.bin"), "rb") as f:
                if f.read() != data:
                    st = "copy"
    e["status"] = "ok" if st == "ok" else "raised"
    if st == "ok":
        e["json"] = BB.ints(BB.json_node(json.loads(out)))
    ev.append(e)
    return {"ev": ev}
