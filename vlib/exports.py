"""Independent readers/writers of PICO-8's export containers (js and pod)."""
import re, struct
from .carts import BadFormat


# ---------------------------------------------------------------- lz4 blocks

def lz4_decode(data, strict=True):
    """strict: also hold to the end-of-block rules of the format"""
    out, i, last = bytearray(), 0, 0
    n = len(data)

    def byte():
        nonlocal i
        if i >= n:
            raise BadFormat("lz4 data runs past the end")
        i += 1
        return data[i - 1]

    def more(v):
        while True:
            b = byte()
            v += b
            if b != 255:
                return v
    lastmatch = None
    while True:
        h = byte()
        ln = h >> 4
        if ln == 15:
            ln = more(ln)
        if i + ln > n:
            raise BadFormat("lz4 literals run past the end")
        out += data[i:i + ln]
        i += ln
        if i == n:
            if strict and h & 15:
                raise BadFormat("lz4 block ends in a half match")
            break
        off = byte() | byte() << 8
        c = (h & 15) + 4
        if c == 19:
            c = more(c)
        if not 0 < off <= len(out):
            raise BadFormat("bad lz4 match offset")
        lastmatch = len(out)
        for _ in range(c):
            out.append(out[-off])
        last = len(out)
    if strict and lastmatch is not None:
        if len(out) - last < 5:
            raise BadFormat("lz4: the last 5 bytes must be literals")
        if len(out) - lastmatch < 12:
            raise BadFormat("lz4: the last match must start at least 12 bytes before the end")
    return bytes(out)


def lz4_encode(data, rng=None):
    """a simple encoder: with rng, uses random matches"""
    out, lit, i, n = bytearray(), bytearray(), 0, len(data)

    def emit(match):
        ln, c = len(lit), (match[1] - 4 if match else 0)
        out.append(min(ln, 15) << 4 | min(c, 15))
        if ln >= 15:
            v = ln - 15
            while v >= 255:
                out.append(255)
                v -= 255
            out.append(v)
        out.extend(lit)
        lit.clear()
        if match:
            out.extend(struct.pack("<H", match[0]))
            if c >= 15:
                v = c - 15
                while v >= 255:
                    out.append(255)
                    v -= 255
                out.append(v)
    while i < n:
        m = None
        if rng and i < n - 12:
            j = data.rfind(data[i:i + 4], max(0, i - 65535), i + 3)
            if 0 <= j < i:
                c = 4
                while i + c < n - 5 and data[j + c] == data[i + c]:
                    c += 1
                m = (i - j, c if rng.random() < 0.7 else rng.randrange(4, c + 1))
        if m and rng.random() < 0.8:
            emit(m)
            i += m[1]
        else:
            lit.append(data[i])
            i += 1
    emit(None)
    return bytes(out)


# ---------------------------------------------------------------- js

def js_write(rng, carts, tail):
    q = rng.choice([q for q in "``'\"" if not any(q in n for n, _ in carts)])
    names = rng.choice([", ", ","]).join(q + n + q for n, _ in carts)
    data = b"".join(d for _, d in carts)
    per = rng.choice([256, 64, 1000])
    lines = [",".join(map(str, data[i:i + per])) for i in range(0, len(data), per)]
    sp = rng.choice(["", " "])
    return (rng.choice(["", "// header\n"]) + f"var _cartname{sp}={sp}[{names}];\nvar _cdpos=0; var iii=0; var ciii=0;\n"
            f"var _cartdat{sp}={sp}[{rng.choice(['', chr(10)])}" + (rng.choice([",\n", ","])).join(lines) + f"];\n\n{tail}")


def js_read(text):
    """-> (carts, the rest of the file as a tuple)"""
    a = re.search(r"var\s+_cartname\s*=\s*\[", text)
    b = re.compile(r"""\s*(?:(`[^`]*`|'[^']*'|"[^"]*")\s*(?:,\s*(?:`[^`]*`|'[^']*'|"[^"]*")\s*)*)?(?=\]\s*;)""").match(text, a.end())
    if not b:
        raise BadFormat("odd list of names")
    names = [m.group()[1:-1] for m in re.finditer(r"""`[^`]*`|'[^']*'|"[^"]*\"""", b.group())]
    c = re.search(r"var\s+_cartdat\s*=\s*\[([^\]]*)\]", text)
    vals = c.group(1).strip()
    data = bytes(int(v) for v in vals.split(",")) if vals else b""
    if len(data) != 0x8000 * len(names):
        raise BadFormat(f"{len(names)} carts but {len(data)} bytes")
    rest = (text[:a.end()], text[b.end():c.start(1)], text[c.end(1):])
    return [(n, data[i * 0x8000:(i + 1) * 0x8000]) for i, n in enumerate(names)], rest


# ---------------------------------------------------------------- pod

def pod_file(name, data, compress=None):
    name = name.encode()
    if len(name) > 63:
        raise BadFormat("name too long")
    body = data if compress is None else compress
    return (b"CFIL" if compress is None else b"cFIL") + struct.pack("<II", 0, len(data)) + name.ljust(64, b"\0") + \
        (b"" if compress is None else struct.pack("<I", len(body))) + body


def pod_bmp(w, h, data, bpp=8, compress=None):
    head = struct.pack("<IIIIII", len(data) + 0x14, w, h, bpp, 0, 0)
    return b"CBMP" + head + data if compress is None else b"cBMP" + head + struct.pack("<I", len(compress)) + compress


def pod_pal(data):
    return b"CPAL" + struct.pack("<I", 768) + data


def pod_write(entries, name=b""):
    """entries: raw byte strings of the functions above"""
    return b"CPOD" + struct.pack("<II", 0x44, 1) + name.ljust(32, b"\0") + struct.pack("<I", len(entries)) + bytes(0x1c - 4 + 4) + b"".join(entries)


def pod_read(data):
    """-> (header without the count, [(raw, kind, name, content)])"""
    if data[:4] != b"CPOD" or len(data) < 0x4c:
        raise BadFormat("not a pod")
    count = struct.unpack("<I", data[0x2c:0x30])[0]
    i, out = 0x4c, []
    for _ in range(count):
        kind, at = data[i:i + 4], i
        size = struct.unpack("<I", data[i + 4:i + 8])[0]
        name = content = None
        if kind in (b"CFIL", b"cFIL"):
            if size:
                raise BadFormat("bad pod file entry")
            n = struct.unpack("<I", data[i + 8:i + 12])[0]
            field = data[i + 12:i + 76]
            name = field.split(b"\0")[0].decode()
            if any(field[len(name.encode()):]):
                raise BadFormat("rests of another name in a name field")
            i += 76
            if kind == b"cFIL":
                cn = struct.unpack("<I", data[i:i + 4])[0]
                content = lz4_decode(data[i + 4:i + 4 + cn])
                i += 4 + cn
                if len(content) != n:
                    raise BadFormat("pod file size doesn't match")
            else:
                content = data[i:i + n]
                i += n
        elif kind in (b"CBMP", b"cBMP"):
            if kind == b"CBMP":
                i += 8 + size
                content = data[at + 28:i]
            else:
                cn = struct.unpack("<I", data[i + 28:i + 32])[0]
                content = lz4_decode(data[i + 32:i + 32 + cn])
                i += 32 + cn
        elif kind == b"CPAL":
            i += 8 + size
            content = data[at + 8:i]
        else:
            raise BadFormat(f"unknown pod entry {kind}")
        if i > len(data):
            raise BadFormat("pod entry runs past the end")
        out.append((data[at:i], kind, name, content))
    if i != len(data):
        raise BadFormat("data after the last pod entry")
    return data[:0x2c] + data[0x30:0x4c], out
