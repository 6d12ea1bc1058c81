"""Minimal Windows executables with version information"""
import struct


def _node(name, value=b"", typ=1, children=(), length=None):
    head = name.encode("utf-16-le") + b"\0\0"
    body = bytearray(struct.pack("<HHH", 0, (len(value) // 2 if typ == 1 else len(value)) if length is None else length, typ) + head)
    body += b"\0" * (-len(body) % 4) + value
    for c in children:
        body += b"\0" * (-len(body) % 4) + c
    body[:2] = struct.pack("<H", len(body))
    return bytes(body)


def _string(key, text):
    return _node(key, text.encode("utf-16-le") + b"\0\0")


def version_info(strings, fixed=(9, 9, 9, 9)):
    a, b, c, d = fixed
    binary = struct.pack("<LLHHHHHHHHLLLLLLL", 0xFEEF04BD, 0x10000, b, a, d, c, b, a, d, c, 0x3F, 0, 0x40004, 1, 0, 0, 0)
    table = _node("StringFileInfo", children=[_node("040904b0", children=[_string(k, v) for k, v in strings])])
    var = _node("VarFileInfo", children=[_node("Translation", struct.pack("<HH", 0x409, 1200), typ=0)])
    return _node("VS_VERSION_INFO", binary, typ=0, children=[table, var])


def executable(strings, fill=b"", before=b"", wide=True):
    """PE file whose version resource has the given (key, text) strings"""
    rva = 0x2000
    info = version_info(strings)
    # three levels of directories: type, name, language
    rsrc = b""
    for n, (ident, sub) in enumerate(((16, 24), (1, 48), (1033, 72))):
        rsrc += struct.pack("<LLHHHH", 0, 0, 0, 0, 0, 1) + struct.pack("<LL", ident, sub | (0x80000000 if n < 2 else 0))
    off = len(rsrc) + 16
    rsrc += struct.pack("<LLLL", rva + off, len(info), 0, 0) + info
    rsrc += b"\0" * (-len(rsrc) % 512)
    text = before + b"\xc3" * 16
    text += b"\0" * (-len(text) % 512)
    dirs = [(0, 0)] * 16
    dirs[2] = (rva, len(rsrc))
    opt = struct.pack("<HBBLLLLL", 0x20b if wide else 0x10b, 14, 0, len(text), len(rsrc), 0, 0x1000, 0x1000)
    opt += (struct.pack("<Q", 0x140000000) if wide else struct.pack("<LL", 0x3000, 0x400000))
    opt += struct.pack("<LLHHHHHHLLLLHH", 0x1000, 512, 6, 0, 0, 0, 6, 0, 0, 0x4000, 1024, 0, 2, 0)
    opt += struct.pack("<QQQQ" if wide else "<LLLL", 0x100000, 0x1000, 0x100000, 0x1000)
    opt += struct.pack("<LL", 0, 16) + b"".join(struct.pack("<LL", *d) for d in dirs)
    sections = [(b".text", 0x1000, len(text), 1024, 0x60000020), (b".rsrc", rva, len(rsrc), 1024 + len(text), 0x40000040)]
    pe = b"PE\0\0" + struct.pack("<HHLLLHH", 0x8664 if wide else 0x14c, len(sections), 0x5c000000, 0, 0, len(opt), 0x22) + opt
    for name, va, size, pos, flags in sections:
        pe += struct.pack("<8sLLLL12xL", name, size, va, size, pos, flags)
    dos = struct.pack("<2sHHHHHHLHLHH8xHH20xL", b"MZ", 0x90, 3, 0, 4, 0, 0xffff, 0xb8, 0, 0, 0x40, 0, 0, 0, 0x80)
    head = dos + b"\0" * (0x80 - len(dos)) + pe
    assert len(head) <= 1024
    return head + b"\0" * (1024 - len(head)) + text + rsrc + fill
