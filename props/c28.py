"""C28: mesh, atlas and skin info conversions keep the data"""
import io
import json
import math
import os
import re
import struct

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): executable specification of meshes, atlas and skins information, model checked against writing; files read and converted by the real code compared by TLC, byte by byte"
NOTE = ("The specification reads the records of a file from its bytes. TLC checks that it reads back whatever is written and refuses cut files, generates files, "
        "and reads every file given to the real code to compare values, OBJ files of the converter and of skn-extract, and converted JSON.")
RULE = ("files from TLC and random ones: mesh versions 0, 1, 2 and 4, all types of vertices, submeshes in any order, overlapping or empty; atlas information of strings and of hashes; skins; "
        "a quarter cut or damaged; non-trivial: an accepted mesh with two submeshes, or two records")
ASSUMPTIONS = ["NaN payloads are not kept", "a submesh whose ranges or indices are out of its vertices has no specified content, neither do texts which are not UTF-8 and numbers which are not finite",
               "of submeshes with the same name, any is written"]
TRACE = "Trace_C28"
PATHS = ["ASSETS/Items/Icons2D/AutoAtlas/atlas_0.dds", "assets/x/a.tex", "a.DDS", "b.tga", "c/.dds", "d.dds/e", "f.tex.dds", "g..tex", "noext", "", "é.dds", "H.png", "i.ddsx", "j/...tex"]


def designs(g):
    for m in ("MC_Mesh", "MC_Infos"):
        yield m, f"{m}_thorough.cfg" if g.thorough else f"{m}.cfg", {"workers": 8, "timeout": 1500}


def f32(rng):
    return rng.choice([struct.pack("<f", rng.choice([0.0, -0.0, 1.0, .1, -2.5, 1e-40, 3.4e38, 16777216.0, 1 / 3, 1e-5, 123456.79])), rng.randbytes(4)])


def finite(rng):
    b = f32(rng)
    return b if math.isfinite(struct.unpack("<f", b)[0]) else struct.pack("<f", .5)


def mesh(rng):
    ver = rng.choice([0, 1, 2, 4, 4, 4]) if rng.random() < .95 else rng.choice([3, 5])
    vt = rng.choice([0, 1, 2, 2, 3]) if ver == 4 else 0
    ns = 1 if ver == 0 else rng.choice([0, 1, 2, 2, 3])
    subs, verts, idx = [], 0, []
    names = rng.sample(["body", "Weapon", "a.b", "x y", "", "é", "m" * 63, "..", "~"], max(ns, 1))
    big = rng.random() < .02
    for k in range(ns):
        n = rng.choice([0, 1, 3, 4, 5]) if not big else 300
        t = [] if n == 0 else [rng.randrange(n) for _ in range(3 * rng.choice([0, 1, 2, 3]))]
        subs.append([names[k], verts, n, len(idx), len(t)])
        idx += [x + verts for x in t]
        verts += n
    if ver and rng.random() < .1 and subs:
        subs.append(["again"] + subs[0][1:])
    if ver and rng.random() < .15 and subs:
        s = rng.choice(subs)
        what = rng.randrange(5)
        if what == 0:
            s[0] = rng.choice(["a/b", "/tmp/x", "../x", "/"])
        else:
            s[what] = max(0, s[what] + rng.choice([1, -1, 3, 70000]))
    if rng.random() < .05 and idx:
        idx[rng.randrange(len(idx))] = rng.choice([0, verts, 65535])
    if rng.random() < .05:
        idx.append(0)
    rng.shuffle(subs)
    out = b"\x33\x22\x11\0" + struct.pack("<HH", ver, rng.randrange(3))
    if ver:
        out += struct.pack("<L", len(subs))
        for s in subs:
            n = s[0].encode()[:64]
            out += n + (b"\0" + rng.randbytes(63 - len(n)) if len(n) < 64 else b"") + struct.pack("<4L", *s[1:])
        if ver == 4:
            out += rng.randbytes(4)
    out += struct.pack("<LL", len(idx), verts)
    size = 52 + (4 if vt else 0) + (16 if vt == 2 else 0)
    if ver == 4:
        out += struct.pack("<LL", size, vt) + rng.randbytes(40)
    out += b"".join(struct.pack("<H", i) for i in idx)
    for _ in range(verts):
        out += f32(rng) + f32(rng) + f32(rng) + rng.randbytes(4) + b"".join(f32(rng) for _ in range(9)) + rng.randbytes(size - 52 if vt != 2 else 4) + (b"".join(f32(rng) for _ in range(4)) if vt == 2 else b"")
    return out


def text(rng):
    return rng.choice(PATHS + ["Annie", "Annie Skin \"1\"", "\\/\n", "日本"]).encode() if rng.random() < .95 else rng.choice([b"\xff", b"x" * 300, b"\xe2\x82"])


def pstr(b):
    return struct.pack("<L", len(b)) + b


def atlas(rng, hashes):
    na = rng.choice([0, 1, 1, 2, 3])
    nt = rng.choice([0, 1, 2, 3]) if na else 0
    h = rng.random() < .5
    put = (lambda: rng.choice(hashes)) if h else (lambda: pstr(text(rng)))
    out = (b"IMAA" if h else b"") + struct.pack("<L", na) + b"".join(put() for _ in range(na)) + struct.pack("<L", nt)
    for _ in range(nt):
        num = f32 if rng.random() < .05 else finite
        out += put() + b"".join(num(rng) for _ in range(4)) + struct.pack("<L", rng.randrange(na) if rng.random() < .97 else rng.choice([na, 7, 0xffffffff]))
    return out


def skins(rng):
    out = b"mahC" + struct.pack("<L", 2 if rng.random() < .95 else rng.choice([1, 3]))
    n = rng.choice([0, 1, 1, 2, 3])
    out += struct.pack("<L", n)
    for _ in range(n):
        out += pstr(text(rng))
        m = rng.choice([0, 1, 2, 3, 5, 9])
        out += struct.pack("<L", m)
        for _ in range(m):
            out += struct.pack("<LB", rng.choice([0, 1, 1000, 266001, 0xffffffff, rng.getrandbits(32)]), rng.choice([0, 1, 3, 4, 4, 5, 255])) + pstr(text(rng))
    return out


def damage(rng, d):
    if not d:
        return d
    i = rng.randrange(len(d))
    return rng.choice([lambda: d[:i], lambda: d[:-rng.randrange(1, min(20, len(d)) + 1)], lambda: d[:i] + bytes([rng.randrange(256)]) + d[i + 1:], lambda: d[:-1] if d else d])()


def cases(g):
    rng = g.rng
    hashes = [rng.randbytes(8) for _ in range(5)] + [b"\1\0\0\0\0\0\0\0", b"\1\2\3\4\5\6\7\xc8"]
    files = []
    for m in ("MC_Mesh", "MC_Infos"):
        scen = g.scenarios(m, f"{m}_gen.cfg", simulate=g.pick(150, 1500), depth=8)
        rng.shuffle(scen)
        files += [("mesh" if s["kind"] == "mesh" else "skins" if s["kind"] == "skins" else "atlas", bytes(int(x) for x in re.findall(r"\d+", s["bytes"]))) for s in scen[:g.pick(120, 1500)]]
    for _ in range(g.pick(260, 5000)):
        files += [("mesh", mesh(rng)), ("atlas", atlas(rng, hashes)), ("skins", skins(rng))]
    for kind, data in files:
        if rng.random() < .25:
            data = damage(rng, data)
        if len(data) > 30000:
            continue
        known = [[h, p] for h, p in zip(hashes, rng.sample(PATHS[:9] + PATHS[11:], len(hashes))) if rng.random() < .6]
        yield {"kind": kind, "data": data, "known": known, "cli": rng.random() < .5, "n": rng.randrange(1 << 30)}


def nontrivial(case, trace):
    return any(len(e.get("subs", e.get("textures", e.get("champions", ())))) > 1 for e in trace["ev"])


NAN = b"\0\0\xc0\x7f"


def pf(x):
    x = float(x)
    if math.isnan(x):
        return NAN
    b = struct.pack("<f", x)
    return b if struct.unpack("<f", b)[0] == x else struct.pack("<d", x)


def floats(xs):
    return list(b"".join(pf(x) for x in xs))


def obj(name, data):
    ret = {"name": list(name.encode()), "v": [], "vt": [], "vn": [], "f": []}
    for line in data.decode().splitlines():
        t = line.split()
        if not t or t[0].startswith("#"):
            continue
        if t[0] == "f":
            ret["f"].append([int(x) if x else 0 for y in t[1:] for x in y.split("/")])
        else:
            ret.setdefault(t[0], []).append(floats(t[1:]))
    return ret


def run(case, env):
    import cdtb.hashes as H
    from cdtb import export as X
    from cdtb.sknfile import SknFile
    from vlib import guard
    data, kind = case["data"], case["kind"]
    H.hashfile_game.hashes = {int.from_bytes(h, "little"): p for h, p in case["known"]}
    out, rel = env.path("out"), "d/f.skn" if kind == "mesh" else "d/f.cdtb"
    path = os.path.join(out, rel)

    def read(p):
        with guard.disabled():
            with open(p, "rb") as f:
                return f.read()
    if kind == "mesh":
        src = env.path("f.skn")
        with guard.disabled():
            with open(src, "wb") as f:
                f.write(data)
        st, m = env.call(lambda: SknFile(src if case["n"] % 2 else io.BytesIO(data)))
        e = {"op": "mesh", "bytes": list(data), "status": "ok" if st == "ok" else "raised"}
        if st == "ok":
            e["subs"] = [{"name": list(s["name"].encode()), "idx": list(s["indices"]), "verts": [
                {"pos": floats(v["position"]), "bones": list(v["bone_indices"]), "weight": floats(v["weight"]), "normal": floats(v["normal"]), "uv": floats(v["uv"]),
                 "color": list(v["color"] or ()), "tangent": floats(v["tangent"] or ())} for v in s["vertices"]]} for s in m.entries]
        ev = [e]
        if case["cli"]:
            args = ["skn-extract", src] if case["n"] % 4 < 2 else ["skn-extract", "-o", env.path("o", "x"), src]
            st, so, se = env.cli(args)
            d = env.path("f") if len(args) == 2 else env.path("o", "x")
            raw = data
        else:
            conv = X.SknConverter()
            st, v = env.call(lambda: conv.convert(io.BytesIO(data), out, rel))
            d = path[:-4]
            raw = read(path)
        with guard.disabled():
            names = sorted(os.listdir(d)) if os.path.isdir(d) else []
        if st != "ok" and case["cli"]:
            names = []  # a command which fails may have written some files
        ev.append({"op": "files", "bytes": list(data), "raw": list(raw), "status": "ok" if st == "ok" else "raised", "files": [obj(n, read(os.path.join(d, n))) for n in names]})
        return {"ev": ev}
    conv = X.AtlasInfoConverter(re.compile("x")) if kind == "atlas" else X.ChampionSkinInfoConverter()
    st, v = env.call(lambda: conv.convert(io.BytesIO(data), out, rel))
    with guard.disabled():
        there = os.path.exists(path + ".json")
    e = {"op": kind, "bytes": list(data), "status": "ok" if there else "raised", "known": [[list(h), list(p.encode())] for h, p in case["known"]]}
    if there:
        j = json.loads(read(path + ".json"))
        if kind == "atlas":
            e["textures"] = [{"name": list(n.encode()), "path": list(t["atlasPath"].encode()), "xy": floats([t["startX"], t["startY"], t["endX"], t["endY"]])} for n, t in j.items()]
        else:
            e["champions"] = [{"name": list(n.encode()), "skins": [{"id": list(i.encode()), "name": list(s["name"].encode()), "prestige": s["prestige"]} for i, s in k.items()]} for n, k in j.items()]
    return {"ev": [e]}
