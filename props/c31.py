"""C31: textures and images are exported as the picture they hold"""
import io
import os
import re
import struct

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): executable specification of textures (levels, block formats, pixels), model checked against writing; exported PNG files compared by TLC, pixel by pixel"
NOTE = ("The specification locates the largest level of a texture in its bytes and decodes its pixels. TLC checks that it finds what is written, level by level, and refuses short files, generates "
        "textures, and decodes every texture and image exported by the real exporter to compare the PNG files. Colors of compressed blocks are compared up to 2 of 255, as roundings differ.")
RULE = ("textures from TLC and random ones of every format, 1 to 20 pixels wide, with and without smaller levels, DDS (DXT1, DXT5, 32 bits) and TGA (24 and 32 bits, both directions); "
        "a quarter cut, damaged, or with unknown formats; exported with others from an archive or as plain files; non-trivial: a picture has several blocks or levels")
ASSUMPTIONS = ["BC7 blocks are generated in mode 6 only", "textures in half floats or without pixels may be skipped", "smaller levels are not checked"]
FORMATS = {10: (8, 4), 12: (16, 4), 13: (16, 4), 14: (16, 4), 20: (4, 1)}
CASE_TIMEOUT = 40


def designs(g):
    yield "MC_Tex", "MC_Tex_thorough.cfg" if g.thorough else "MC_Tex.cfg", {"workers": 6, "timeout": 1200}


def level(rng, fmt, w, h):
    n, s = FORMATS.get(fmt, (8, 1))
    count = -(-w // s) * -(-h // s)
    out = b""
    for _ in range(count):
        b = rng.randbytes(n)
        if fmt == 13:
            b = bytes([b[0] & 128 | 64]) + b[1:]
        elif fmt in (10, 12) and rng.random() < .5:   # order of the two colors
            c = sorted([b[-8:-6], b[-6:-4]], key=lambda x: x[::-1], reverse=rng.random() < .5)
            b = b[:-8] + c[0] + c[1] + b[-4:]
        out += b
    return out


def tex(rng):
    w, h = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 20]), rng.choice([1, 2, 3, 4, 6, 8, 11, 16])
    fmt = rng.choice([10, 12, 13, 14, 20] * 4 + [21, 11, 1, 0, 22])
    mip = rng.choice([0, 0, 1, 1, 2, 255]) if fmt != 21 else 0
    out = struct.pack("<4sHHBBBB", b"TEX\0", w, h, rng.choice([0, 1, 1, 3]), fmt, rng.randrange(3), mip)
    if mip:
        sizes = []
        a, b = w, h
        while a > 1 or b > 1:
            a, b = max(a // 2, 1), max(b // 2, 1)
            sizes.append((a, b))
        out += b"".join(level(rng, fmt, *s) for s in reversed(sizes))
    return out + level(rng, fmt, w, h)


def dds(rng):
    w, h = rng.choice([1, 2, 4, 5, 8, 12]), rng.choice([1, 3, 4, 7, 8])
    fmt = rng.choice([10, 12, 20])
    if fmt == 20:
        pf = struct.pack("<LL4s5L", 32, 0x41, b"\0\0\0\0", 32, 0xff0000, 0xff00, 0xff, 0xff000000)
    else:
        pf = struct.pack("<LL4s20x", 32, 4, b"DXT1" if fmt == 10 else b"DXT5")
    more = rng.random() < .4
    out = b"DDS " + struct.pack("<LLLLLLL44x", 124, 0x100F, h, w, w * 4, 0, 2 if more else 0) + pf + struct.pack("<LLLLL", 0x1000, 0, 0, 0, 0)
    return out + level(rng, fmt, w, h) + (level(rng, fmt, max(1, w // 2), max(1, h // 2)) if more else b"")


def tga(rng):
    w, h = rng.choice([1, 2, 3, 5, 8]), rng.choice([1, 2, 4, 7])
    bits = rng.choice([24, 32])
    n = rng.choice([0, 0, 3])
    return struct.pack("<BBBHHBHHHHBB", n, 0, 2, 0, 0, 0, 0, 0, w, h, bits, rng.choice([0, 0x20]) | (8 if bits == 32 else 0)) + rng.randbytes(n) + rng.randbytes(w * h * bits // 8)


def damage(rng, kind, d):
    i = rng.randrange(len(d))
    head = {"tex": 12, "dds": 128, "tga": 18}[kind]
    r = rng.random()
    if r < .35:
        return d[:-rng.randrange(1, min(20, len(d)) + 1)]
    if r < .5:
        return d[:i]
    if r < .65:
        return d[:head + rng.randrange(5)]
    if r < .75 and kind == "tex":
        return d[:4 + rng.randrange(2) * 2] + struct.pack("<H", rng.choice([0, 1, 40, 3000])) + d[6:] if len(d) > 8 else d
    if r < .9:
        return d + rng.randbytes(rng.choice([1, 7, 40]))
    return rng.choice([b"", d[1:], b"OEGM" + d[4:], b"TEX\0", rng.randbytes(30)])


def cases(g):
    rng = g.rng
    files = [("tex", bytes(int(x) for x in re.findall(r"\d+", s["bytes"]))) for s in g.scenarios("MC_Tex", "MC_Tex_gen.cfg")]
    rng.shuffle(files)
    files = files[:g.pick(120, 1000)]
    for _ in range(g.pick(1500, 20000)):
        kind = rng.choice(["tex"] * 6 + ["dds", "tga"])
        files.append((kind, {"tex": tex, "dds": dds, "tga": tga}[kind](rng)))
    files = [(k, damage(rng, k, d) if rng.random() < .22 else d) for k, d in files]
    files = [(k, d) for k, d in files if len(d) < 3000]
    rng.shuffle(files)
    while files:
        n = rng.choice([1, 5, 10, 15])
        batch, files = files[:n], files[n:]
        # no picture among textures of the name
        yield {"files": [[k, d] for k, d in batch], "plain": rng.random() < .25, "n": rng.randrange(1 << 30)}


def nontrivial(case, trace):
    return any(e["op"] == "file" and len(e["px"]) > 64 for e in trace["ev"])


def png(path):
    """Dimensions and pixels of a PNG file"""
    from PIL import Image
    with open(path, "rb") as f:
        data = f.read()
    try:
        im = Image.open(io.BytesIO(data))
        im.load()
        if im.format != "PNG":
            raise ValueError(im.format)
    except Exception:
        return {"have": "other", "w": 0, "h": 0, "px": []}
    return {"have": "yes", "w": im.size[0], "h": im.size[1], "px": list(im.convert("RGBA").tobytes())}


def run(case, env):
    import random
    import xxhash
    import cdtb.hashes as H
    from cdtb.export import CdragonRawPatchExporter
    from cdtb.storage import PatchVersion
    from vlib import guard, waddrv
    from vlib.exportdrv import StubElement, StubPatch, empty_hashes
    from vlib.wenv import fstree
    rng = random.Random(case["n"])
    empty_hashes()
    files, known, entries, want = [], {}, [], []
    dirs = ["assets/maps/t", "assets/characters/x.y", "data/images", "assets/a b"]
    with guard.disabled():
        for k, (kind, data) in enumerate(case["files"]):
            path = f"{rng.choice(dirs)}/{rng.choice(['Tex', 'x.tex', '2x_a', 'a.b'])}{k}.{kind}".lower()
            if case["plain"]:
                p = env.path("src", str(k))
                os.makedirs(env.path("src"), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(data)
                files.append((p, path))
                want.append(path)
            else:
                h = xxhash.xxh64_intdigest(path)
                known[h] = path
                how = rng.choice(["raw", "gz", "zstd"])
                entries.append({"h": h, "kind": how, "data": data, "sum": xxhash.xxh3_64_intdigest(data + b"|" + how.encode())})
                want.append("game/" + path)
        if not case["plain"]:
            p = env.path("a.wad.client")
            blob, _ = waddrv.build({"version": [3, 1], "entries": entries}, rng)
            with open(p, "wb") as f:
                f.write(blob)
            files.append((p, "data/final/a.wad.client"))
    H.hashfile_game.hashes = known
    v = PatchVersion("10.1")
    saved = CdragonRawPatchExporter.export_tft_data, CdragonRawPatchExporter.export_arena_data
    CdragonRawPatchExporter.export_tft_data = lambda self: None
    CdragonRawPatchExporter.export_arena_data = lambda self: None
    out = env.path("out", "10.1")
    try:
        patch = StubPatch(v, [StubElement("client" if case["plain"] else "game", v, files)])
        st = env.call(lambda: CdragonRawPatchExporter(out, patch).process())
    finally:
        CdragonRawPatchExporter.export_tft_data, CdragonRawPatchExporter.export_arena_data = saved
    with guard.disabled():
        tree = {p: x for p, x in fstree(out, lambda b: "").items() if not p.startswith("cdragon/") and x[0] != "d"} if os.path.isdir(out) else {}
        ev = []
        for (kind, data), path in zip(case["files"], want):
            name = os.path.splitext(path)[0] + ".png"
            e = {"op": "file", "kind": kind, "bytes": list(data), "have": "no", "w": 0, "h": 0, "px": []}
            if name in tree:
                e.update(png(os.path.join(out, name)))
                del tree[name]
            ev.append(e)
    ev.append({"op": "export", "status": st[0], "extra": sorted(tree)[:5]})
    return {"ev": ev}
