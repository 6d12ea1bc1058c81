"""C27: string table decoding returns every entry's text under its hash"""
import io
import json
import os
import re
import struct

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): executable specification of string tables, model checked against writing; tables decoded, searched and converted by the real code compared by TLC, byte by byte"
NOTE = ("The specification decodes a table from its bytes for any version of files and of the game. TLC checks that it reads back whatever is written in several layouts, generates tables, "
        "and then decodes every table given to the real code to compare entries, lookups and converted JSON.")
RULE = ("tables from TLC and random ones: versions 1 to 6, game versions around 14.15 and 15.2, shared or overlapping or encrypted or undecodable texts, duplicates, cut or damaged tables; "
        "lookups by names of any case, numbers of any size and other values; non-trivial: an accepted table with two entries")
ASSUMPTIONS = ["hashes of names are those of the xxhash package", "entries out of the data may be refused or have any text", "the number of replacement characters of undecodable bytes is not specified"]
TRACE = "Trace_C27"
NAMES = ["game_character_displayname_annie", "generatedtip_spell_q", "a", "B", "item_1001_name", "tft_item_5"]
GV = [1, 1400, 1414, 1415, 1416, 1501, 1502, 1503, 9999]


def designs(g):
    yield "MC_Rst", "MC_Rst_thorough.cfg" if g.thorough else "MC_Rst.cfg", {"workers": 8, "timeout": 1500}


def bits(ver, gv):
    return 40 if ver < 4 else 39 if gv < 1502 else 38


def hash_of(name, gv):
    import xxhash
    return (xxhash.xxh3_64_intdigest if gv >= 1415 else xxhash.xxh64_intdigest)(name.lower())


def text(rng):
    how = rng.randrange(8)
    if how < 4:
        return rng.choice([b"", b"a", b"Annie", "é€😀".encode(), b"x\x92y", b"\xff", b"\xfe\1\0a", b"\xe2\x82", b"a\nb\"\\/", b"%i:scale% <br>", b"\xed\xa0\x80z", "\ufffd\u2028".encode()])
    if how < 6:
        return bytes(rng.choice(b"abcXYZ 09\"\\<>\x01\x7f") for _ in range(rng.randrange(12)))
    return bytes(rng.randrange(1, 256) for _ in range(rng.randrange(9)))


def table(rng, ver, gv, gap=0):
    out = b"RST" + bytes([ver])
    if ver == 2:
        conf = rng.choice([None, b"", b"font \"a\"", b"bad \xff\x92", b"x" * 20])
        out += b"\0" if conf is None else bytes([rng.choice([1, 1, 7])]) + struct.pack("<L", len(conf)) + conf
    b = bits(ver, gv)
    trenc = rng.random() < .4
    n = rng.choice([0, 1, 2, 2, 3, 4, 6])
    data, offs, hs = b"", [], []
    pad = rng.choice([b"", b"", b"\0", b"unused\0", b"y" * 300])
    data += pad + b"z" * gap
    for _ in range(n):
        if offs and rng.random() < .25:
            offs.append(rng.choice(offs) + rng.choice([0, 0, 1, 2]))
        else:
            offs.append(len(data))
            if trenc and rng.random() < .5:
                d = rng.randbytes(rng.choice([0, 1, 2, 3, 7, 260]))
                data += b"\xff" + struct.pack("<H", len(d)) + d
            else:
                data += text(rng) + b"\0"
        hs.append(rng.choice([hash_of(rng.choice(NAMES), gv), rng.getrandbits(64), rng.choice([0, 1, (1 << 64) - 1, 1 << 38, 1 << 39]), rng.choice(hs or [5])]) & ((1 << b) - 1))
    if rng.random() < .15:
        data = data[:-1] if rng.random() < .5 else data + b"tail"
    order = list(range(n))
    rng.shuffle(order)
    out += struct.pack("<L", n) + b"".join(struct.pack("<Q", hs[i] | offs[i] << b) for i in order)
    if ver < 5:
        out += bytes([rng.choice([1, 1, 2, 255]) if trenc else 0])
    return out + data


def damage(rng, d):
    if not d:
        return d
    i = rng.randrange(len(d))
    how = rng.randrange(4)
    if how == 0:
        return d[:i]
    if how == 1:
        return d[:i] + bytes([rng.randrange(256)]) + d[i + 1:]
    if how == 2:
        return d[:-rng.randrange(1, 4)]
    return d[:3] + bytes([rng.randrange(256)]) + d[4:]


def cases(g):
    rng = g.rng
    scen = g.scenarios("MC_Rst", "MC_Rst_gen.cfg", simulate=g.pick(200, 2500), depth=9)
    rng.shuffle(scen)
    files = [(s["gv"], bytes(int(x) for x in re.findall(r"\d+", s["bytes"]))) for s in scen[:g.pick(200, 4000)]]
    for _ in range(g.pick(600, 12000)):
        gv = rng.choice(GV)
        files.append((gv, table(rng, rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 5, 6]) if rng.random() < .9 else rng.choice([0, 7, 255]), gv)))
    for gv, data in files:
        if rng.random() < .2:
            data = damage(rng, data)
        elif rng.random() < .1:
            gv = rng.choice(GV)
        if len(data) > 900:
            continue
        yield case(g, gv, data)
    for _ in range(g.pick(4, 60)):
        gv = rng.choice(GV)
        yield case(g, gv, table(rng, rng.choice([2, 3, 4, 5]), gv, rng.choice([300, 66000])))


    for _ in range(g.pick(3, 12)):      # in a process whose texts are ASCII by default
        gv = rng.choice(GV)
        data = table(rng, rng.choice([2, 3, 4, 5]), gv)
        if len(data) < 900:
            yield case(g, gv, data) | {"locale": True}


SCRIPT = """
import io, re, sys
sys.path.insert(0, sys.argv[1])
import cdtb.rstfile as R
from cdtb.export import RstConverter
R.hashfile_rst_xxh64.hashes = R.hashfile_rst_xxh3.hashes = {}
RstConverter(re.compile("x"), game_version=int(sys.argv[4])).convert(io.BytesIO(open(sys.argv[2], "rb").read()), sys.argv[3], "d/t.txt")
"""


def convert_ascii(path, out_dir, gv):
    import subprocess
    import sys

    from vlib import guard
    from vlib.run import REPO
    with guard.disabled():
        subprocess.run([sys.executable, "-c", SCRIPT, REPO, path, out_dir, str(gv)], timeout=60, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                       env=dict(os.environ, LC_ALL="C", PYTHONCOERCECLOCALE="0", PYTHONUTF8="0", PYTHONDONTWRITEBYTECODE="1"))


def case(g, gv, data):
    rng = g.rng
    return {"data": data, "gv": gv, "default": gv >= 1502 and rng.random() < .3, "known": [x for x in NAMES if rng.random() < .6], "file": rng.random() < .5, "n": rng.randrange(1 << 30)}


def nontrivial(case, trace):
    return any(e["op"] == "decode" and e["status"] == "ok" and len(e["entries"]) > 1 for e in trace["ev"])


def seen(t):
    """Bytes of a text; the ones of cases are short"""
    b = t.encode()
    return list(b) if len(b) <= 1500 else [0]


def le(h, n=8):
    return list((h & (1 << 64) - 1).to_bytes(8, "little")[:n])


def run(case, env):
    import random

    import xxhash

    import cdtb.rstfile as R
    from cdtb.export import RstConverter
    from vlib import guard
    rng = random.Random(case["n"])
    data, gv = case["data"], case["gv"]
    path = env.path("t.stringtable")
    with guard.disabled():
        with open(path, "wb") as f:
            f.write(data)
    kw = {} if case["default"] else {"game_version": gv}
    src = path if case["file"] else io.BytesIO(data)
    st, r = env.call(lambda: R.RstFile(src, **kw))
    e = {"op": "decode", "bytes": list(data), "gv": gv, "status": "ok" if st == "ok" else "raised"}
    ev = [e]
    if st == "ok":
        entries = [{"h": le(h, 5) if 0 <= h < 1 << 40 else [], "text": seen(t)} for h, t in r.entries.items()]
        e.update(version=r.version, bits=r.hash_bits, hasConfig=r.font_config is not None, config=list((r.font_config or "").encode()[:1500]), entries=entries)
        NO = object()
        for _ in range(6):
            how = rng.randrange(8)
            if how < 3:
                w = rng.choice(NAMES)
                w = rng.choice([w, w.upper(), w.title()])
                k, key = w, {"how": "name", "xxh3": le(xxhash.xxh3_64_intdigest(w.lower())), "xxh64": le(xxhash.xxh64_intdigest(w.lower())), "num": []}
            elif how < 7:
                h = rng.choice(list(r.entries) or [5])
                h = rng.choice([h, h, h ^ 1, h + (rng.randrange(1 << 20) << r.hash_bits), rng.getrandbits(64), hash_of(rng.choice(NAMES), gv), h - (1 << 40)])
                k, key = h, {"how": "num", "num": le(h), "xxh3": [], "xxh64": []}
            else:
                k, key = rng.choice([None, 1.5, b"a", (1,)]), {"how": "other", "num": le(0), "xxh3": [], "xxh64": []}
            s1, v1 = env.call(lambda: r[k])
            s2, v2 = env.call(lambda: k in r)
            s3, v3 = env.call(lambda: r.get(k, NO))
            got = lambda s, v, no: {"found": not no, "text": seen(v) if s == "ok" and isinstance(v, str) else []}   # noqa
            ev.append({"op": "lookup", "gv": gv, "bits": r.hash_bits, "entries": entries, "key": key, "contains": v2 if s2 == "ok" else key["how"] == "other",
                       "item": got(s1, v1, s1 == "raised" and v1 == "KeyError"), "get": got(s3, v3, v3 is NO)})
    # converter
    R.hashfile_rst_xxh64.hashes = {xxhash.xxh64_intdigest(x.lower()): x for x in case["known"]}
    R.hashfile_rst_xxh3.hashes = {xxhash.xxh3_64_intdigest(x.lower()): x for x in case["known"]}
    if case.get("locale"):
        R.hashfile_rst_xxh64.hashes, R.hashfile_rst_xxh3.hashes = {}, {}
    # a name known for a part of its hash only
    if case["n"] % 3 == 0 and not case.get("locale") and st == "ok" and r.entries:
        for hf in (R.hashfile_rst_xxh64, R.hashfile_rst_xxh3):
            hf.hashes[rng.choice(list(r.entries)) | rng.randrange(1 << 20) << r.hash_bits] = "full"
    hashes = R.get_hashfile(gv).hashes if False else (R.hashfile_rst_xxh3 if gv >= 1415 else R.hashfile_rst_xxh64).hashes
    out_dir = env.path("out")
    if case.get("locale"):
        convert_ascii(path, out_dir, gv)
    else:
        st, v = env.call(lambda: RstConverter(re.compile("x"), **kw).convert(io.BytesIO(data), out_dir, "d/t.txt"))
    e = {"op": "json", "bytes": list(data), "gv": gv, "known": [[le(h), list(x.encode())] for h, x in hashes.items()]}
    with guard.disabled():
        with open(os.path.join(out_dir, "d/t.txt"), "rb") as f:
            e["raw"] = list(f.read())
        js = os.path.join(out_dir, "d/t.txt.json")
        e["status"] = "ok" if os.path.exists(js) else "raised"
        if e["status"] == "ok":
            with open(js, encoding="utf-8") as f:
                j = json.load(f)
            e["version"] = j["version"]
            e["got"] = [{"key": list(k.encode()), "text": seen(t)} for k, t in j["entries"].items()]
    ev.append(e)
    return {"ev": ev}
