"""BIN files: values (see Bin.tla: {"t", "sub", "b", "kids"}), files built from random values, nodes of decoded objects"""
import math
import struct

SIMPLE = ["EMPTY", "BOOL", "S8", "U8", "S16", "U16", "S32", "U32", "S64", "U64", "FLOAT", "VEC2_FLOAT", "VEC3_FLOAT", "VEC4_FLOAT", "MATRIX4X4", "RGBA", "STRING", "HASH"]
SIZES = {"EMPTY": 6, "BOOL": 1, "S8": 1, "U8": 1, "S16": 2, "U16": 2, "S32": 4, "U32": 4, "S64": 8, "U64": 8, "FLOAT": 4, "VEC2_FLOAT": 8, "VEC3_FLOAT": 12,
         "VEC4_FLOAT": 16, "MATRIX4X4": 64, "RGBA": 4, "HASH": 4, "PATH": 8, "LINK": 4, "FLAG": 1}
FMT = {"EMPTY": "<3H", "BOOL": "<?", "S8": "<b", "U8": "<B", "S16": "<h", "U16": "<H", "S32": "<i", "U32": "<I", "S64": "<q", "U64": "<Q", "FLAG": "<B", "RGBA": "<4B"}
NAN = struct.pack("<f", math.nan)


def codes(tv):
    d = {t: i for i, t in enumerate(SIMPLE)}
    cx = ["LIST"] + (["LIST2"] if tv >= 1008 else []) + ["STRUCT", "EMBEDDED", "LINK", "OPTION", "MAP", "FLAG"]
    first = 18 if tv < 923 else 128
    d.update({t: first + i for i, t in enumerate(cx)})
    if tv >= 923:
        d["PATH"] = 18
    return d


def node(t, sub="", b=b"", kids=()):
    return {"t": t, "sub": sub, "b": bytes(b), "kids": list(kids)}


class Gen:
    def __init__(self, rng, tv, hashes, depth=3):
        self.rng, self.tv, self.depth = rng, tv, depth
        self.codes = codes(tv)
        self.hashes = hashes    # pools: {"entries", "fields", "types", "hashes": [4 bytes], "paths": [8 bytes]}

    def text(self):
        rng = self.rng
        return rng.choice(["", "a", "ASSETS/x.dds", "é", "日本\U0001f600", "\0", "\"\\\n", "x" * rng.randrange(300) if rng.random() < .1 else "b", "a/b", "\x7f\x1f</script>"]).encode()

    def f32(self):
        rng = self.rng
        return rng.choice([b"\0\0\0\0", b"\0\0\0\x80", b"\0\0\x80\x3f", b"\xcd\xcc\xcc\x3d", b"\xff\xff\x7f\x7f", b"\1\0\0\0", b"\0\0\x80\xbf", b"\0\0\x80\x4b"] * 6
                          + [b"\0\0\x80\x7f", b"\0\0\x80\xff", NAN] + [struct.pack("<f", rng.uniform(-1e4, 1e4)), struct.pack("<f", rng.random() * 10 ** rng.randrange(-30, 30))] * 4)

    def value(self, t, depth=None):
        rng = self.rng
        depth = self.depth if depth is None else depth
        if t in ("FLOAT", "VEC2_FLOAT", "VEC3_FLOAT", "VEC4_FLOAT", "MATRIX4X4"):
            return node(t, "", b"".join(self.f32() for _ in range(SIZES[t] // 4)))
        if t in ("HASH", "LINK", "PATH"):
            pool = self.hashes[{"HASH": "hashes", "LINK": "entries", "PATH": "paths"}[t]]
            return node(t, "", rng.choice(pool) if rng.random() < .8 else rng.randbytes(SIZES[t]))
        if t == "BOOL":
            return node(t, "", rng.choice([b"\0", b"\1"]))
        if t == "STRING":
            return node(t, "", self.text())
        if t in SIZES:
            return node(t, "", rng.choice([rng.randbytes(SIZES[t]), b"\0" * SIZES[t], b"\xff" * SIZES[t], b"\xff" * (SIZES[t] - 1) + b"\x7f", b"\0" * (SIZES[t] - 1) + b"\x80", b"\5" + b"\0" * (SIZES[t] - 1)]))
        if t in ("LIST", "LIST2"):
            vt = self.type(depth - 1)
            return node(t, vt, b"", [self.value(vt, depth - 1) for _ in range(rng.choice([0, 1, 2, 3]))])
        if t in ("STRUCT", "EMBEDDED"):
            if t == "STRUCT" and rng.random() < .2:
                return node(t, "", b"\0\0\0\0")
            return node(t, "", rng.choice(self.hashes["types"]), self.fields(depth - 1))
        if t == "OPTION":
            vt = self.type(depth - 1)
            return node(t, vt, b"", [self.value(vt, depth - 1)] if rng.random() < .6 else [])
        if t == "MAP":
            kt = rng.choice(["HASH", "STRING", "U8", "U32", "S16", "U64", "LINK", "S32", "S8", "FLAG"] + (["PATH"] if "PATH" in self.codes else []))
            vt = self.type(depth - 1)
            ps = {}
            for _ in range(rng.choice([0, 1, 2, 3])):
                k = self.value(kt)
                ps[k["b"]] = node("PAIR", "", b"", [k, self.value(vt, depth - 1)])
            return node(t, f"{kt},{vt}", b"", ps.values())
        raise ValueError(t)

    def type(self, depth):
        rng = self.rng
        ts = [t for t in self.codes if depth > 0 or t in SIZES or t == "STRING"]
        return rng.choice([t for t in ts if t not in SIZES] * (3 if depth > 0 else 1) + ts)

    def fields(self, depth):
        rng = self.rng
        ret = {}
        for _ in range(rng.choice([0, 1, 2, 3, 4])):
            h = rng.choice(self.hashes["fields"])
            ret[h] = node("FIELD", "", h, [self.value(self.type(depth), depth)])
        return list(ret.values())

    # -- writing --
    def size(self, n):
        return struct.pack("<L", n if self.rng.random() < .95 else self.rng.randrange(1 << 32))     # not used by readers

    def enc(self, v):
        t, kids = v["t"], v["kids"]
        if t == "STRING":
            return struct.pack("<H", len(v["b"])) + v["b"]
        if t in ("LIST", "LIST2"):
            d = b"".join(self.enc(k) for k in kids)
            return bytes([self.codes[v["sub"]]]) + self.size(len(d) + 4) + struct.pack("<L", len(kids)) + d
        if t in ("STRUCT", "EMBEDDED"):
            if t == "STRUCT" and v["b"] == b"\0\0\0\0":
                return v["b"]
            d = self.enc_fields(kids)
            return v["b"] + self.size(len(d) + 2) + struct.pack("<H", len(kids)) + d
        if t == "OPTION":
            return bytes([self.codes[v["sub"]], len(kids)]) + b"".join(self.enc(k) for k in kids)
        if t == "MAP":
            d = b"".join(self.enc(p["kids"][0]) + self.enc(p["kids"][1]) for p in kids)
            kt, vt = v["sub"].split(",")
            return bytes([self.codes[kt], self.codes[vt]]) + self.size(len(d) + 4) + struct.pack("<L", len(kids)) + d
        return v["b"]

    def enc_fields(self, fs):
        return b"".join(f["b"] + bytes([self.codes[f["kids"][0]["t"]]]) + self.enc(f["kids"][0]) for f in fs)

    def file(self):
        rng = self.rng
        ver, patch = rng.choice([1, 2, 3, 3, 3, 4]), rng.random() < .3
        out = (b"PTCH" + struct.pack("<2L", 1, 0) if patch else b"") + b"PROP" + struct.pack("<L", ver)
        if ver >= 2:
            li = [self.text() for _ in range(rng.choice([0, 0, 1, 2]))]
            out += struct.pack("<L", len(li)) + b"".join(struct.pack("<H", len(x)) + x for x in li)
        n = rng.choice([0, 1, 1, 1, 2, 3])
        hs = rng.sample(self.hashes["entries"], n)
        out += struct.pack("<L", n) + b"".join(rng.choice(self.hashes["types"]) for _ in range(n))
        for h in hs:
            fs = self.fields(self.depth)
            d = self.enc_fields(fs)
            if h is hs[-1] and not patch and rng.random() < .08:  # text cut short, with a matching length
                fs = fs + [None]
                d += rng.choice(self.hashes["fields"]) + bytes([self.codes["STRING"]]) + struct.pack("<H", rng.choice([1, 2, 5])) + rng.choice([b"", b"a"])
            out += struct.pack("<L", len(d) + 6) + h + struct.pack("<H", len(fs)) + d
        if patch and ver >= 3:
            m = rng.choice([0, 1, 2, 3])
            out += struct.pack("<L", m)
            for k in range(m):
                t = self.type(1)
                v = self.enc(self.value(t, 1))
                if k == m - 1 and rng.random() < .2:
                    t, v = "STRING", struct.pack("<H", rng.choice([1, 2, 5])) + rng.choice([b"", b"a"])
                p = b"P%d." % k + self.text()
                out += rng.choice(self.hashes["entries"][:2]) + self.size(len(p) + 3 + len(v)) + bytes([self.codes[t]]) + struct.pack("<H", len(p)) + p + v
        return out


def damage(rng, data):
    if not data:
        return data
    d = bytearray(data)
    how = rng.choice(["cut", "cut", "flip", "flip", "byte", "insert", "remove", "append", "tail"])
    if how == "cut":
        return bytes(d[:rng.randrange(len(d))])
    if how == "tail":
        return bytes(d[:-rng.randrange(1, min(9, len(d) + 1))])
    if how == "append":
        return data + rng.randbytes(rng.randrange(1, 5))
    i = rng.randrange(len(d))
    if how == "flip":
        d[i] ^= 1 << rng.randrange(8)
    elif how == "byte":
        d[i] = rng.choice([0, 1, 2, 18, 19, 24, 25, 127, 128, 129, 130, 135, 136, 255])
    elif how == "insert":
        d.insert(i, rng.randrange(256))
    else:
        del d[i]
    return bytes(d)


# -- decoded objects --

def _f32(x):
    x = float(x)
    if math.isnan(x):
        return NAN
    b = struct.pack("<f", x)
    if struct.unpack("<f", b)[0] != x:
        raise ValueError("not a 32-bit number")
    return b


def observed(t, v):
    """Node of a decoded value; t: name of its type"""
    import cdtb.binfile as B

    def need(c):
        if type(v) is not c:
            raise ValueError(f"{t}: {type(v)}")
    if t in ("FLOAT",):
        return node(t, "", _f32(v))
    if t in ("VEC2_FLOAT", "VEC3_FLOAT", "VEC4_FLOAT"):
        return node(t, "", b"".join(_f32(x) for x in v))
    if t == "MATRIX4X4":
        return node(t, "", b"".join(_f32(x) for r in v for x in r) if [len(r) for r in v] == [4] * 4 else b"")
    if t == "BOOL":
        need(bool)
        return node(t, "", bytes([v]))
    if t in ("EMPTY", "RGBA"):
        return node(t, "", struct.pack(FMT[t], *v))
    if t in FMT:
        return node(t, "", struct.pack(FMT[t], v))
    if t == "STRING":
        need(str)
        return node(t, "", v.encode())
    if t in ("HASH", "LINK", "PATH"):
        need({"HASH": B.BinHashValue, "LINK": B.BinEntryPath, "PATH": B.BinPathValue}[t])
        return node(t, "", struct.pack("<Q" if t == "PATH" else "<L", v.h))
    if t in ("LIST", "LIST2"):
        need(B.BinList)
        return node(t, v.vtype.name, b"", [observed(v.vtype.name, x) for x in v.values])
    if t in ("STRUCT", "EMBEDDED"):
        need(B.BinStruct if t == "STRUCT" else B.BinEmbedded)
        return node(t, "", struct.pack("<L", v.type.h), [field(f) for f in v.fields])
    if t == "OPTION":
        need(B.BinOption)
        return node(t, v.vtype.name, b"", [] if v.value is None else [observed(v.vtype.name, v.value)])
    if t == "MAP":
        need(B.BinMap)
        return node(t, f"{v.ktype.name},{v.vtype.name}", b"", [node("PAIR", "", b"", [observed(v.ktype.name, k), observed(v.vtype.name, x)]) for k, x in v.values.items()])
    raise ValueError(t)


def field(f):
    return node("FIELD", "", struct.pack("<L", f.name.h), [observed(f.type.name, f.value)])


def ints(n):
    """For TLC"""
    if isinstance(n, dict):
        return {k: ints(v) for k, v in n.items()}
    if isinstance(n, (bytes, bytearray)):
        return list(n)
    if isinstance(n, list):
        return [ints(x) for x in n]
    return n


def json_node(v):
    """Node of a parsed JSON value"""
    def j(j, b=b"", s="", kids=()):
        return {"j": j, "b": bytes(b), "s": s, "kids": list(kids)}
    if v is None:
        return j("null")
    if v is True or v is False:
        return j("true" if v else "false")
    if isinstance(v, int):
        return j("int", s=str(v))
    if isinstance(v, float):
        try:
            return j("float", _f32(v))
        except (ValueError, OverflowError):
            return j("float", b"")
    if isinstance(v, str):
        return j("str", v.encode("utf-8", "surrogatepass"))
    if isinstance(v, list):
        return j("arr", kids=[json_node(x) for x in v])
    return j("obj", kids=[j("pair", k.encode("utf-8", "surrogatepass"), "", [json_node(x)]) for k, x in v.items()])


class Unreadable(Exception):
    pass


class TextDump:
    """Nodes of a file from its text form; names: known hashes {list: {name: hash bytes}}"""
    import re
    NAME = re.compile(r"\{[0-9a-f]+\}|[^\s{}<>()\[\]'\"]+")
    STR = re.compile(r"'(?:[^'\\\n]|\\.)*'|\"(?:[^\"\\\n]|\\.)*\"")
    NUM = re.compile(r"[-+.\w]+")
    TYPE = re.compile(r" (?=[A-Z][A-Z0-9_]*\b)")
    SPACE = re.compile(r"\s*")

    def __init__(self, text, names):
        self.s, self.p, self.names = text, 0, names
        self.shown = []

    def ws(self):
        self.p = self.SPACE.match(self.s, self.p).end()

    def at(self, x):
        self.ws()
        return self.s.startswith(x, self.p)

    def take(self, x):
        if not self.at(x):
            raise Unreadable(f"{x!r} expected: {self.s[self.p:self.p + 30]!r}")
        self.p += len(x)

    def match(self, r):
        self.ws()
        m = r.match(self.s, self.p)
        if not m:
            raise Unreadable(f"{r.pattern}: {self.s[self.p:self.p + 30]!r}")
        self.p = m.end()
        return m.group(0)

    def literal(self):
        import ast
        return ast.literal_eval(self.match(self.STR))

    def hashed(self, kind, text):
        """Hash which is shown as a text"""
        size = 8 if kind == "paths" else 4
        if text in self.names[kind]:
            h = self.names[kind][text]
        elif len(text) == 2 * size + 2 and text[0] + text[-1] == "{}":
            h = int(text[1:-1], 16).to_bytes(size, "little")
        else:
            raise Unreadable(f"unknown {kind}: {text}")
        self.shown.append({"k": kind, "h": list(h), "t": list(text.encode())})
        return h

    def name(self, kind, quoted=False):
        self.ws()
        if quoted and self.s[self.p:self.p + 1] != "{":
            return self.hashed(kind, self.literal())
        return self.hashed(kind, self.match(self.NAME))

    def typename(self, t):
        if t not in SIZES and t not in ("STRING", "LIST", "LIST2", "STRUCT", "EMBEDDED", "OPTION", "MAP"):
            raise Unreadable(f"type {t}")
        return t

    def items(self, one, end="]"):
        ret = []
        while not self.at(end):
            ret.append(one())
        self.take(end)
        return ret

    def formatted(self):
        """A value after its type"""
        t = self.typename(self.match(self.re.compile("[A-Z0-9_]+")))
        return self.value(t)

    def element(self, t):
        """A value within another: simple ones have no type"""
        if t in ("LIST", "LIST2", "STRUCT", "EMBEDDED", "OPTION", "MAP"):
            self.take("<")
            self.take("LIST" if t == "LIST2" and not self.at("LIST2") else t)
            v = self.value(t)
            self.take(">")
            return v
        return self.value(t)

    def value(self, t):
        if t in ("LIST", "LIST2"):
            self.take("(")
            vt = self.typename(self.match(self.NAME))
            self.take(")")
            self.take("[")
            return node(t, vt, b"", self.items(lambda: self.element(vt)))
        if t in ("STRUCT", "EMBEDDED"):
            if t == "STRUCT" and self.at("None"):
                self.take("None")
                return node(t, "", b"\0\0\0\0")
            h = self.name("types")
            self.take("[")
            return node(t, "", h, self.items(self.field))
        if t == "OPTION":
            self.take("(")
            vt = self.typename(self.match(self.NAME))
            self.take(")")
            # a missing structure is different from no structure
            if self.at("None"):
                self.take("None")
                return node(t, vt)
            return node(t, vt, b"", [self.element(vt)])
        if t == "MAP":
            self.take("(")
            kt, vt = self.match(self.re.compile(r"\w+,\w+")).split(",")
            self.take(")")
            self.take("{")
            return node(t, f"{kt},{vt}", b"", self.items(lambda: self.pair(kt, vt), "}"))
        return self.simple(t)

    def pair(self, kt, vt):
        # exactly two more spaces than the map; keys may have spaces
        i = self.s.index("  ", self.s.rindex("\n", 0, self.p) + 1)
        while self.s.startswith("  ", i) and i < self.p:
            i += 2
        end = self.s.find(" => ", self.p - (self.p - i if kt == "STRING" else 0))
        if end < 0:
            raise Unreadable("=>")
        k, self.p = self.s[i if kt == "STRING" else self.p:end], end + 4
        if kt == "STRING":
            key = node(kt, "", k.encode())
        elif kt in ("HASH", "LINK", "PATH"):
            key = node(kt, "", self.hashed({"HASH": "hashes", "LINK": "entries", "PATH": "paths"}[kt], k))
        else:
            key = node(kt, "", struct.pack(FMT[kt], int(k)))
        return node("PAIR", "", b"", [key, self.element(vt)])

    def simple(self, t):
        if t == "STRING":
            return node(t, "", self.literal().encode())
        if t in ("HASH", "LINK", "PATH"):
            return node(t, "", self.name({"HASH": "hashes", "LINK": "entries", "PATH": "paths"}[t], True))
        self.ws()
        if self.at("("):
            n, i = 0, self.p
            while True:
                if i >= len(self.s) or self.s[i] not in "()-+.,_ ainfe0123456789":
                    raise Unreadable("tuple")
                n += {"(": 1, ")": -1}.get(self.s[i], 0)
                i += 1
                if not n:
                    break
            text, self.p = self.s[self.p:i], i
        else:
            text = self.match(self.NUM)
        v = eval(text, {"__builtins__": {}}, {"nan": math.nan, "inf": math.inf})
        return observed(t, v)

    def field(self):
        self.take("<")
        h = self.name("fields")
        v = self.formatted()
        self.take(">")
        return node("FIELD", "", h, [v])

    def patch(self):
        self.take("<")
        start = self.p
        for m in self.TYPE.finditer(self.s, start):
            n = len(self.shown)
            try:
                self.p = m.end()
                v = self.formatted()
                self.take(">")
            except Unreadable:
                del self.shown[n:]
                continue
            return node("PFIELD", "", self.s[start:m.start()].encode(), [v])
        raise Unreadable("patch")

    def file(self):
        linked, entries, patches = None, [], []
        if self.at("<Linked:"):
            self.take("<Linked:")
            self.take("[")
            linked = [list(x.encode()) for x in self.items(self.literal)]
            self.take(">")
        while self.at("<BinEntry"):
            self.take("<BinEntry")
            h = self.name("entries", True)
            h += self.name("types")
            self.take("[")
            entries.append(node("ENTRY", "", h, self.items(self.field)))
            self.take(">")
        while self.at("<BinPatchEntry"):
            self.take("<BinPatchEntry")
            h = self.name("entries", True)
            self.take("[")
            patches.append(node("PATCH", "", h, self.items(self.patch)))
            self.take(">")
        self.ws()
        if self.p != len(self.s):
            raise Unreadable(f"at the end: {self.s[self.p:self.p + 30]!r}")
        return {"hasLinked": linked is not None, "linked": linked or [], "entries": ints(entries), "patches": ints(patches), "shown": self.shown}


def has_raw_text(n):
    """Texts which are not quoted are not easily readable"""
    if n["t"] == "PFIELD" and not n["b"].decode("utf-8", "replace").isprintable():
        return True
    if n["t"] == "PAIR" and n["kids"][0]["t"] == "STRING" and (not n["kids"][0]["b"].decode("utf-8", "replace").isprintable() or b"=>" in n["kids"][0]["b"]):
        return True
    return any(has_raw_text(k) for k in n["kids"])
