"""Contents of exported files, with what they are converted to

Tokens: raw_token (bytes), sem_token (pixels of a PNG, values of a JSON file, lines of an OBJ file).
A content has one token per conversion ("" if this data cannot be converted that way).
"""
import hashlib
import io
import json
import struct

KINDS = ("data", "png", "dds", "tga", "tex", "bin", "skn", "rst", "atlas", "skins", "json")


def sha(x):
    return hashlib.sha1(x).hexdigest()[:12]


def raw_token(data):
    return "r" + sha(data)


def pixels_token(w, h, rgba):
    return "p" + sha(b"%d,%d," % (w, h) + rgba)


def json_token(v):
    return "j" + sha(json.dumps(v, sort_keys=True).encode())


def obj_token(text):
    lines = []
    for line in text.splitlines():
        t = line.split()
        if t and t[0] in ("v", "vt", "vn"):
            lines.append([t[0]] + [float(x) for x in t[1:]])
        else:
            lines.append(t)
    return "o" + sha(json.dumps(lines).encode())


def sem_token(data, ext):
    """Token of the meaning of a file, its raw token if it has none"""
    try:
        if ext == ".png":
            from PIL import Image
            im = Image.open(io.BytesIO(data))
            if im.format != "PNG":
                raise ValueError("not PNG")
            im.load()
            return pixels_token(*im.size, im.convert("RGBA").tobytes())
        if ext == ".json":
            return json_token(json.loads(data.decode("utf-8")))
        if ext == ".obj":
            return obj_token(data.decode("utf-8"))
    except Exception:
        pass
    return raw_token(data)


# -- builders: (data, tokens) from an index n making contents distinct --

def _pixels(rng, w, h, alpha=True):
    return bytes(rng.randrange(256) if k % 4 != 3 or alpha else 255 for k in range(4 * w * h))


def png(rgba, w, h):
    from PIL import Image
    b = io.BytesIO()
    Image.frombytes("RGBA", (w, h), rgba).save(b, "PNG")
    return b.getvalue()


def tga(rgba, w, h, rng=None):
    """Uncompressed, top to bottom"""
    px = b"".join(bytes([rgba[i + 2], rgba[i + 1], rgba[i], rgba[i + 3]]) for i in range(0, len(rgba), 4))
    return struct.pack("<BBBHHBHHHHBB", 0, 0, 2, 0, 0, 0, 0, 0, w, h, 32, 0x28) + px


def dds(rgba, w, h):
    px = b"".join(bytes([rgba[i + 2], rgba[i + 1], rgba[i], rgba[i + 3]]) for i in range(0, len(rgba), 4))
    pf = struct.pack("<LL4s5L", 32, 0x41, b"\0\0\0\0", 32, 0xff0000, 0xff00, 0xff, 0xff000000)
    return b"DDS " + struct.pack("<LLLLLLL44x", 124, 0x100F, h, w, w * 4, 0, 0) + pf + struct.pack("<LLLLL", 0x1000, 0, 0, 0, 0) + px


def tex(rgba, w, h, mipmaps=False):
    px = b"".join(bytes([rgba[i + 2], rgba[i + 1], rgba[i], rgba[i + 3]]) for i in range(0, len(rgba), 4))
    out = struct.pack("<4sHHBBB?", b"TEX\0", w, h, 1, 0x14, 0, mipmaps)
    if mipmaps:
        # smaller ones first
        sizes = []
        a, b = w, h
        while a > 1 or b > 1:
            a, b = max(a // 2, 1), max(b // 2, 1)
            sizes.append(a * b * 4)
        for s in reversed(sizes):
            out += bytes(range(1, 9))[:1] * s
    return out + px


def bin_file(n, text):
    """PROP version 2, one entry with a number and a string"""
    fields = struct.pack("<LB", 0x11110000 + n, 7) + struct.pack("<L", n) + struct.pack("<LB", 0x22220000, 16) + struct.pack("<H", len(text)) + text
    entry = struct.pack("<LH", 0x0ABC0000 + n, 2) + fields
    data = b"PROP" + struct.pack("<LLLL", 2, 0, 1, 0x0DEF0000) + struct.pack("<L", len(entry)) + entry
    js = {"{%08x}" % (0x0ABC0000 + n): {"{%08x}" % (0x11110000 + n): n, "{22220000}": text.decode(), "__type": "{0def0000}"}, "__linked": []}
    return data, js


def skn_file(n, names):
    """Version 1: one triangle per submesh"""
    out = struct.pack("<LHHL", 0x00112233, 1, 1, len(names))
    for k, name in enumerate(names):
        out += name.encode().ljust(64, b"\0") + struct.pack("<4L", 3 * k, 3, 3 * k, 3)
    out += struct.pack("<LL", 3 * len(names), 3 * len(names))
    out += struct.pack("<%dH" % (3 * len(names)), *range(3 * len(names)))
    objs = {}
    for k, name in enumerate(names):
        text = ""
        for i in range(3):
            pos, normal, uv = (n + i, k + .5, -i), (0., 1., i / 2), (.25 * i, .5)
            out += struct.pack("<3f4B4f3f2f", *pos, 0, 0, 0, 0, 1, 0, 0, 0, *normal, *uv)
            text += "v %s %s %s\nvt %s %s\nvn %s %s %s\n" % (*pos, *uv, *normal)
        objs[name + ".obj"] = obj_token(text + "f 1/1/1 2/2/2 3/3/3\n")
    return out, objs


def rst_file(n, texts):
    """Version 3"""
    pool, out = b"", struct.pack("<3sBL", b"RST", 3, len(texts))
    js = {}
    for k, t in enumerate(texts):
        h = 0x12000 + 97 * n + k
        out += struct.pack("<Q", len(pool) << 40 | h)
        pool += t.encode() + b"\0"
        js["{%010x}" % h] = t
    return out + b"\0" + pool, {"entries": js, "version": 3}


def atlas_file(n):
    def s(t):
        return struct.pack("<L", len(t)) + t.encode()
    out = struct.pack("<L", 1) + s("ASSETS/Atlas%d.dds" % n) + struct.pack("<L", 2)
    js = {}
    for k in range(2):
        out += s("Tex%d_%d.dds" % (n, k)) + struct.pack("<ffffL", .25 * k, .5, 1, n / 4, 0)
        js["Tex%d_%d.dds" % (n, k)] = {"atlasPath": "assets/atlas%d.png" % n, "startX": .25 * k, "startY": .5, "endX": 1., "endY": n / 4}
    return out, js


def skins_file(n):
    def s(t):
        return struct.pack("<L", len(t)) + t.encode()
    out = b"mahC" + struct.pack("<LL", 2, 1) + s("Champ%d" % n) + struct.pack("<L", 2)
    out += struct.pack("<LB", 1000 * n, 0) + s("base") + struct.pack("<LB", 1000 * n + 1, 4) + s("gold %d" % n)
    return out, {"Champ%d" % n: {str(1000 * n): {"name": "base", "prestige": False}, str(1000 * n + 1): {"name": "gold %d" % n, "prestige": True}}}


INVALID = ("data", "cut", "garbage", "empty")


def make(rng, kind, n, invalid=None):
    """{"kind", "data", "tok"}: content number n of a kind; invalid: data which cannot be converted, but starts like one"""
    tok = {"img": "", "tex": "", "bin": "", "rst": "", "atlas": "", "skins": "", "objs": {}}
    w, h = rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 4])
    if kind in ("png", "dds", "tga", "tex"):
        rgba = _pixels(rng, w, h)
        data = tex(rgba, w, h, rng.random() < .5 and not invalid) if kind == "tex" else {"png": png, "dds": dds, "tga": tga}[kind](rgba, w, h)
        tok["tex" if kind == "tex" else "img"] = pixels_token(w, h, rgba)
    elif kind == "bin":
        data, js = bin_file(n, b"text %d" % n)
        tok["bin"] = json_token(js)
    elif kind == "skn":
        data, tok["objs"] = skn_file(n, rng.sample(["Body", "Head", "a b", "x.y"], rng.randint(1, 3)))
    elif kind == "rst":
        data, js = rst_file(n, ["hello %d" % n, "", "é" * (n % 5)])
        tok["rst"] = json_token(js)
    elif kind == "atlas":
        data, js = atlas_file(n)
        tok["atlas"] = json_token(js)
    elif kind == "skins":
        data, js = skins_file(n)
        tok["skins"] = json_token(js)
    elif kind == "json":
        data = json.dumps({"n": n, "x": [1, "a"]}).encode()
    else:
        data = b"\xfe\xff\xff\x7f data %d " % n + bytes(rng.randrange(256) for _ in range(20))
    if invalid:
        head = data[:rng.choice([4, 8, 12] if kind != "tex" else [4, 8])]
        if invalid == "cut":
            # cut within the last record
            data = data[:len(data) - rng.randint(1, 3)] if kind not in ("png", "dds", "tga", "rst", "skins") else data[:len(data) // 3]
        elif invalid == "garbage":
            data = head + b"\xff" * rng.choice([3, 40]) + b"%d" % n
        elif invalid == "empty":
            data = b""
        else:
            data = b"\xfe\xff\xff\x7f invalid %d" % n
        if kind in ("png", "dds", "tga"):
            from PIL import Image
            try:
                Image.open(io.BytesIO(data)).load()
                data = b""      # still an image
            except Exception:
                pass
        tok = {k: {} if k == "objs" else "" for k in tok}
    tok["raw"] = raw_token(data)
    tok["ok"], tok["none"] = not invalid, False
    return {"kind": kind, "data": data, "tok": tok}
