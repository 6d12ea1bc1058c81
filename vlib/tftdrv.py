"""Game data of TFT and Arena: values (see Tft.tla), BIN files, string tables, nodes of JSON files"""
import os
import struct

from . import binbuild


def fnv(name):
    if name.startswith("#"):
        return int(name[1:], 16)
    h = 0x811c9dc5
    for b in name.lower().encode():
        h = ((h ^ b) * 0x01000193) & 0xffffffff
    return h


def esc(t):
    """Texts given to TLC"""
    return t.encode("unicode_escape").decode()


# -- values; "b": type in BIN files --

def V(t, b, s="", n=0, kids=()):
    return {"t": t, "b": b, "s": s, "n": n, "kids": list(kids)}


def numtext(x):
    return str(int(x)) if float(x).is_integer() else repr(float(x))


def num(x, b="FLOAT"):
    if b == "FLOAT":
        x = struct.unpack("<f", struct.pack("<f", x))[0]
    return V("num", b, numtext(x), int(x // 1)) | {"x": x}


def boolean(x):
    return V("bool", "BOOL", "true" if x else "false")


def text(s):
    return V("str", "STRING", s)


def path(s):
    """Hash of a path: a known one, or the hash in hexadecimal"""
    return V("path", "PATH", s)


def hashed(s):
    return V("hash", "HASH", s)


def ref(p):
    return V("ref", "LINK", p)


def lst(vt, kids, b="LIST"):
    return V("list", b, "", 0, kids) | {"sub": vt}


def F(**kw):
    return [V("field", "", k.replace("__", "#"), 0, [v]) for k, v in kw.items() if v is not None]


def struct_(type, fields, b="EMBEDDED"):
    return V("struct", b, type, 0, fields)


def mp(kt, vt, pairs):
    return V("map", "MAP", "", 0, [V("pair", "", k, 0, [v]) for k, v in pairs]) | {"sub": (kt, vt)}


def entry(p, type, fields):
    return {"t": "entry", "path": p, "type": type, "kids": fields}


def for_tlc(v):
    if isinstance(v, list):
        return [for_tlc(x) for x in v]
    if isinstance(v, dict):
        return {k: esc(x) if isinstance(x, str) else for_tlc(x) for k, x in v.items() if k in ("t", "s", "n", "kids", "path", "type", "name", "where", "entries")}
    return v


# -- BIN files --

class Writer:
    def __init__(self, gv):
        self.codes = binbuild.codes(gv)

    def scalar(self, b, s, x=None):
        import xxhash
        if b == "STRING":
            d = s.encode()
            return struct.pack("<H", len(d)) + d
        if b == "BOOL":
            return b"\1" if s == "true" else b"\0"
        if b in ("LINK", "HASH"):
            return struct.pack("<L", 0 if s == "" else int(s[1:-1], 16) if s.startswith("{") else fnv(s))
        if b == "PATH":
            return struct.pack("<Q", int(s[1:-1], 16) if s.startswith("{") else xxhash.xxh64_intdigest(s.lower()))
        return struct.pack({"FLOAT": "<f"}.get(b) or binbuild.FMT[b], x if x is not None else int(s))

    def value(self, v):
        b = v["b"]
        if b in ("LIST", "LIST2"):
            d = b"".join(self.value(k) for k in v["kids"])
            return bytes([self.codes[v["sub"]]]) + struct.pack("<LL", len(d) + 4, len(v["kids"])) + d
        if b in ("STRUCT", "EMBEDDED"):
            d = self.fields(v["kids"])
            return struct.pack("<LLH", fnv(v["s"]), len(d) + 2, len(v["kids"])) + d
        if b == "MAP":
            kt, vt = v["sub"]
            d = b"".join(self.scalar(kt, p["s"]) + self.value(p["kids"][0]) for p in v["kids"])
            return bytes([self.codes[kt], self.codes[vt]]) + struct.pack("<LL", len(d) + 4, len(v["kids"])) + d
        return self.scalar(b, v["s"], v.get("x"))

    def fields(self, fs):
        return b"".join(struct.pack("<L", fnv(f["s"])) + bytes([self.codes[f["kids"][0]["b"]]]) + self.value(f["kids"][0]) for f in fs)

    def file(self, entries, version=3):
        out = b"PROP" + struct.pack("<L", version)
        if version >= 2:
            out += struct.pack("<L", 1) + self.scalar("STRING", "data/x.bin")
        out += struct.pack("<L", len(entries)) + b"".join(struct.pack("<L", fnv(e["type"])) for e in entries)
        for e in entries:
            d = self.fields(e["kids"])
            out += struct.pack("<LLH", len(d) + 6, fnv(e["path"]), len(e["kids"])) + d
        return out


# -- string tables --

def rst(pairs, ver, gv):
    import xxhash
    b = 40 if ver < 4 else 39 if gv < 1502 else 38
    h = xxhash.xxh3_64_intdigest if gv >= 1415 else xxhash.xxh64_intdigest
    data, es = b"\0", []
    for k, t in pairs:
        es.append((h(k.lower()) & (1 << b) - 1) | len(data) << b)
        data += t.encode() + b"\0"
    return b"RST" + bytes([ver]) + (b"\0" if ver == 2 else b"") + struct.pack("<L", len(es)) + b"".join(struct.pack("<Q", e) for e in es) + (b"\0" if ver < 5 else b"") + data


def fontconfig(pairs, nl="\n", last=True, bom=False, head=""):
    d = head + "".join(f'tr "{k}" = "{t}"{nl}' for k, t in pairs)
    if not last and d.endswith(nl):
        d = d[:-len(nl)]
    return (b"\xef\xbb\xbf" if bom else b"") + d.encode()


def table_path(fmt, lang):
    return {"menu": f"data/menu/main_{lang}.stringtable", "font": f"data/menu/fontconfig_{lang}.txt"}.get(fmt) or f"{lang}/data/menu/en_us/{fmt}.stringtable"


def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def node(v):
    """Node of a parsed JSON value"""
    def o(t, s="", kids=()):
        return {"t": t, "s": s, "kids": list(kids)}
    if v is None:
        return o("none")
    if v is True or v is False:
        return o("bool", "true" if v else "false")
    if isinstance(v, (int, float)):
        return o("num", numtext(v))
    if isinstance(v, str):
        return o("str", esc(v))
    if isinstance(v, list):
        return o("list", "", [node(x) for x in v])
    return o("obj", "", [o("pair", esc(k), [node(x)]) for k, x in v.items()])
