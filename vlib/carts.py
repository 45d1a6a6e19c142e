"""Independent readers/writers of PICO-8's cart formats (written from the published format
descriptions, sharing no code with the tool under test)."""
import base64, hashlib, re, struct, zlib
from .tool import uni_to_p8, p8_to_uni

ROM_SIZE, CART_SIZE, CODE_SIZE = 0x4300, 0x8000, 0x3d00


class BadFormat(Exception):
    pass


# ---------------------------------------------------------------- code compression

class BitIn:
    def __init__(m, data, pos):
        m.data, m.pos = data, pos * 8

    def bit(m):
        i = m.pos >> 3
        if i >= len(m.data):
            raise BadFormat("compressed code runs past the end")
        b = (m.data[i] >> (m.pos & 7)) & 1
        m.pos += 1
        return b

    def bits(m, n):
        return sum(m.bit() << i for i in range(n))


def decode_code(data, stats=None):
    """code area bytes -> (code bytes, kind, bytes used)"""
    stats = stats if stats is not None else {}
    if data[:4] == b"\0pxa":
        size, comp = struct.unpack(">HH", data[4:8])
        if comp > len(data):
            raise BadFormat(f"compressed size field {comp} larger than the space {len(data)}")
        br = BitIn(data[:comp], 8)
        table = list(range(256))
        out = bytearray()
        while len(out) < size:
            if br.bit():
                n = 0
                while br.bit():
                    n += 1
                    if n > 8:
                        raise BadFormat("bad literal")
                i = br.bits(4 + n) + (((1 << n) - 1) << 4)
                if i > 255:
                    raise BadFormat("bad literal index")
                c = table.pop(i)
                table.insert(0, c)
                out.append(c)
                stats["literal"] = stats.get("literal", 0) + 1
            else:
                nb = 15
                if br.bit():
                    nb = 5 if br.bit() else 10
                off = br.bits(nb) + 1
                if off == 1 and nb != 5:
                    if nb != 10:
                        raise BadFormat("literal block marker with a 15-bit offset")
                    n = 0
                    while True:
                        c = br.bits(8)
                        if not c:
                            break
                        out.append(c)
                        n += 1
                    stats["block"] = stats.get("block", 0) + 1
                else:
                    n = 3
                    while True:
                        p = br.bits(3)
                        n += p
                        if p != 7:
                            break
                    if off > len(out):
                        raise BadFormat("match before the start")
                    for _ in range(n):
                        out.append(out[-off])
                    k = f"match{nb}" + ("+" if n >= 10 else "") + ("!" if n > off else "")
                    stats[k] = stats.get(k, 0) + 1
        if len(out) != size:
            raise BadFormat(f"decompressed to {len(out)} instead of {size}")
        used = (br.pos + 7) >> 3
        if used != comp:
            raise BadFormat(f"compressed size field says {comp}, stream uses {used}")
        return bytes(out), "pxa", comp
    if data[:4] == b":c:\0":
        size, zero = struct.unpack(">HH", data[4:8])
        tab = b"\n 0123456789abcdefghijklmnopqrstuvwxyz!#%(){}[]<>+=/*:;.,~_"
        out = bytearray()
        i = 8
        while len(out) < size:
            if i >= len(data):
                raise BadFormat("old compressed code runs past the end")
            c = data[i]
            i += 1
            if c == 0:
                out.append(data[i])
                i += 1
                stats["esc"] = stats.get("esc", 0) + 1
            elif c < 0x3c:
                out.append(tab[c - 1])
                stats["lit"] = stats.get("lit", 0) + 1
            else:
                d = data[i]
                i += 1
                off = (c - 0x3c) * 16 + (d & 15)
                n = (d >> 4) + 2
                if off == 0 or off > len(out):
                    raise BadFormat("bad old-style match")
                if n > off:
                    raise BadFormat("overlapping old-style match")
                for _ in range(n):
                    out.append(out[-off])
                stats["oldmatch"] = stats.get("oldmatch", 0) + 1
        if len(out) != size:
            raise BadFormat(f"decompressed to {len(out)} instead of {size}")
        return bytes(out), "old", i
    e = data.find(b"\0")
    if e < 0:
        e = len(data)
    return bytes(data[:e]), "raw", e


# ---------------------------------------------------------------- rom

def default_rom():
    r = bytearray(ROM_SIZE)
    for i in range(64):
        r[0x3100 + i * 4:0x3104 + i * 4] = b"\x41\x42\x43\x44"
        r[0x3200 + i * 68 + 65] = 16 if i else 1
    return bytes(r)


class Cart:
    def __init__(m, code="", rom=None, label=None, version=43, meta=None):
        m.code, m.rom, m.label, m.version = code, rom if rom is not None else default_rom(), label, version
        m.meta = meta or {}
        m.kind, m.used, m.platform, m.verparts, m.stats = None, None, None, None, {}


def read_rom(data, strict=True):
    if len(data) < CART_SIZE:
        raise BadFormat(f"rom has {len(data)} bytes")
    c = Cart(rom=bytes(data[:ROM_SIZE]))
    code, c.kind, c.used = decode_code(data[ROM_SIZE:CART_SIZE], c.stats)
    c.code = code.decode("latin-1")
    c.rest = bytes(data[ROM_SIZE + c.used:CART_SIZE])
    c.version = None
    if len(data) > CART_SIZE:
        t = data[CART_SIZE:]
        c.version = t[0]
        c.verparts = (t[1], t[2], t[3], t[5])
        c.platform = chr(t[4])
        c.hash = bytes(t[6:26])
        c.hash_ok = c.hash == hashlib.sha1(data[:CART_SIZE]).digest()
        c.tail = bytes(t[26:])
    return c


def read_tiny(data):
    c = Cart()
    code, c.kind, c.used = decode_code(data, c.stats)
    c.code = code.decode("latin-1")
    c.rest = bytes(data[c.used:])
    return c


# ---------------------------------------------------------------- png

def png_decode(data):
    """-> (w, h, rows of RGBA tuples). 8-bit rgb/rgba/palette/gray, not interlaced"""
    if data[:8] != b"\x89PNG\r\n\x1a\n":
        raise BadFormat("not a png")
    pos, idat, plte, trns = 8, b"", None, None
    while pos < len(data):
        n, typ = struct.unpack(">I4s", data[pos:pos + 8])
        body = data[pos + 8:pos + 8 + n]
        if zlib.crc32(typ + body) != struct.unpack(">I", data[pos + 8 + n:pos + 12 + n])[0]:
            raise BadFormat("bad png crc")
        pos += 12 + n
        if typ == b"IHDR":
            w, h, bd, ct, _, _, il = struct.unpack(">IIBBBBB", body)
            if bd != 8 and ct != 3 or il:
                raise BadFormat("png kind not handled")
        elif typ == b"PLTE":
            plte = body
        elif typ == b"tRNS":
            trns = body
        elif typ == b"IDAT":
            idat += body
        elif typ == b"IEND":
            break
    raw = zlib.decompress(idat)
    ch = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[ct]
    stride = (w * ch * bd + 7) // 8
    bpp = max(1, ch * bd // 8)
    rows, prev, p = [], bytearray(stride), 0
    for _ in range(h):
        f = raw[p]
        line = bytearray(raw[p + 1:p + 1 + stride])
        p += 1 + stride
        for i in range(stride):
            a = line[i - bpp] if i >= bpp else 0
            b = prev[i]
            c = prev[i - bpp] if i >= bpp else 0
            if f == 1:
                line[i] = (line[i] + a) & 255
            elif f == 2:
                line[i] = (line[i] + b) & 255
            elif f == 3:
                line[i] = (line[i] + (a + b) // 2) & 255
            elif f == 4:
                q = a + b - c
                pa, pb, pc = abs(q - a), abs(q - b), abs(q - c)
                pr = a if pa <= pb and pa <= pc else b if pb <= pc else c
                line[i] = (line[i] + pr) & 255
        prev = line
        if ct == 6:
            row = [tuple(line[i:i + 4]) for i in range(0, stride, 4)]
        elif ct == 2:
            row = [tuple(line[i:i + 3]) + (255,) for i in range(0, stride, 3)]
        elif ct == 3:
            idx = []
            for x in range(w):
                bit = x * bd
                idx.append((line[bit >> 3] >> (8 - bd - (bit & 7))) & ((1 << bd) - 1))
            row = [tuple(plte[i * 3:i * 3 + 3]) + ((trns[i] if trns and i < len(trns) else 255),) for i in idx]
        elif ct == 0:
            row = [(v, v, v, 255) for v in line]
        else:
            row = [(line[i],) * 3 + (line[i + 1],) for i in range(0, stride, 2)]
        rows.append(row)
    return w, h, rows


def png_encode(rows):
    h, w = len(rows), len(rows[0])
    raw = b"".join(b"\0" + bytes(v for px in row for v in px) for row in rows)

    def chunk(t, b):
        return struct.pack(">I", len(b)) + t + b + struct.pack(">I", zlib.crc32(t + b))
    return (b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, 6, 0, 0, 0))
            + chunk(b"IDAT", zlib.compress(raw, 1)) + chunk(b"IEND", b""))


PALETTE = [0x000000, 0x1d2b53, 0x7e2553, 0x008751, 0xab5236, 0x5f574f, 0xc2c3c7, 0xfff1e8, 0xff004d, 0xffa300, 0xffec27,
           0x00e436, 0x29adff, 0x83769c, 0xff77a8, 0xffccaa, 0x291814, 0x111d35, 0x422136, 0x125359, 0x742f29, 0x49333b,
           0xa28879, 0xf3ef7d, 0xbe1250, 0xff6c24, 0xa8e72e, 0x00b543, 0x065ab5, 0x754665, 0xff6e59, 0xff9d81]
PALETTE = [(v >> 16, (v >> 8) & 255, v & 255) for v in PALETTE]
PAL6 = {(r & 252, g & 252, b & 252): i for i, (r, g, b) in enumerate(PALETTE)}


def image_bytes(rows):
    out = bytearray()
    for row in rows:
        for r, g, b, a in row:
            out.append((b & 3) | (g & 3) << 2 | (r & 3) << 4 | (a & 3) << 6)
    return bytes(out)


def read_png(data):
    w, h, rows = png_decode(data)
    if (w, h) != (160, 205):
        raise BadFormat("cart image has a wrong size")
    c = read_rom(image_bytes(rows))
    c.label = [[PAL6.get(tuple(v & 252 for v in rows[24 + y][16 + x][:3])) for x in range(128)] for y in range(128)]
    c.rows = rows
    return c


def label_from_image(rows):
    return [[PAL6.get(tuple(v & 252 for v in px[:3])) for px in row] for row in rows]


def image_with_bytes(rows, data):
    """a copy of the cart image holding other bytes"""
    out, i = [], 0
    for row in rows:
        nr = []
        for r, g, b, a in row:
            v = data[i]
            i += 1
            nr.append((r & 252 | (v >> 4) & 3, g & 252 | (v >> 2) & 3, b & 252 | v & 3, a & 252 | v >> 6))
        out.append(nr)
    return out


# ---------------------------------------------------------------- clipboard and url

def read_clip(text):
    mt = re.fullmatch(r"\[cart\]([0-9a-f]+)\[/cart\]\s*", text)
    if not mt:
        raise BadFormat("not a [cart] tag")
    return read_png(bytes.fromhex(mt.group(1)))


B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_-"


def read_url(text):
    mt = re.fullmatch(r"https://www\.pico-8-edu\.com/\?c=([A-Za-z0-9_\-=]*)(?:&g=([A-Za-z0-9_\-]*))?\s*", text)
    if not mt:
        raise BadFormat("not an education edition url")
    c = read_tiny(base64.b64decode(mt.group(1).replace("_", "+").replace("-", "/"), validate=True))
    gfx = []
    g = mt.group(2) or ""
    i = 0
    while i < len(g):
        v = B64.index(g[i])
        n = (v >> 4) + 1
        i += 1
        if n == 4:
            n += B64.index(g[i])
            i += 1
        gfx += [v & 15] * n
    if len(gfx) > 128 * 128:
        raise BadFormat("too much url gfx")
    gfx += [0] * (128 * 128 - len(gfx))
    rom = bytearray(c.rom)
    for k in range(0, len(gfx), 2):
        rom[k // 2] = gfx[k] | gfx[k + 1] << 4
    c.rom = bytes(rom)
    return c


# ---------------------------------------------------------------- p8 text

SECT_RE = re.compile(r"^__([a-z0-9:_]+)__[ \t]*$")


def read_p8(text, strict=True):
    """strict: also check that the text is formatted exactly as PICO-8 formats it"""
    if "\r" in text and strict:
        raise BadFormat("carriage return in p8")
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    elif strict:
        raise BadFormat("no newline at the end")
    if strict and (not lines[0].startswith("pico-8 cartridge // http://www.pico-8.com") or not re.fullmatch(r"version \d+", lines[1])):
        raise BadFormat("bad header")
    c = Cart()
    c.version = None
    rom = bytearray(default_rom())
    sect, sects, order = None, {}, []
    for ln in lines:
        mt = SECT_RE.match(ln)
        if mt:
            sect = mt.group(1)
            if strict and sect in sects:
                raise BadFormat(f"section {sect} twice")
            sects.setdefault(sect, [])
            order.append(sect)
        elif sect is None:
            if ln.startswith("version "):
                c.version = int(ln[8:])
        else:
            sects[sect].append(ln)
    c.sections = order
    c.code = uni_to_p8("\n".join(sects.get("lua", [])))

    def hexrows(name, width, maxrows):
        rows = sects.get(name, [])
        if strict and (len(rows) > maxrows or any(len(r) != width for r in rows)):
            raise BadFormat(f"section {name} malformed")
        return rows

    for y, r in enumerate(hexrows("gfx", 128, 128)):
        for x in range(0, len(r), 2):
            rom[y * 64 + x // 2] = int(r[x], 16) | int(r[x + 1], 16) << 4
    for y, r in enumerate(hexrows("map", 256, 32)):
        rom[0x2000 + y * 128:0x2000 + y * 128 + 128] = bytes.fromhex(r)
    for y, r in enumerate(hexrows("gff", 256, 2)):
        rom[0x3000 + y * 128:0x3000 + y * 128 + 128] = bytes.fromhex(r)
    for y, r in enumerate(hexrows("sfx", 168, 64)):
        a = 0x3200 + y * 68
        rom[a + 64:a + 68] = bytes.fromhex(r[:8])
        for n in range(32):
            p, w, v, e = int(r[8 + n * 5:10 + n * 5], 16), int(r[10 + n * 5], 16), int(r[11 + n * 5], 16), int(r[12 + n * 5], 16)
            if strict and (p > 63 or v > 7 or e > 7):
                raise BadFormat("sfx note out of range")
            val = p | (w & 7) << 6 | v << 9 | e << 12 | (w >> 3) << 15
            rom[a + n * 2:a + n * 2 + 2] = struct.pack("<H", val)
    for y, r in enumerate(hexrows("music", 11, 64)):
        f = int(r[:2], 16)
        chans = bytes.fromhex(r[3:])
        if strict and (r[2] != " " or f > 15 or any(ch > 127 for ch in chans)):
            raise BadFormat("music row malformed")
        for i, ch in enumerate(chans):
            rom[0x3100 + y * 4 + i] = ch | ((f >> i) & 1) << 7
    if "label" in sects:
        rows = hexrows("label", 128, 128)
        c.label = [[int(ch, 32) for ch in r] for r in rows]
    c.rom = bytes(rom)
    c.meta = {k[5:]: v for k, v in sects.items() if k.startswith("meta:")}
    return c


def write_p8(c, rng=None, newline="\n", drop_defaults=True):
    """a p8 text for the cart. rng varies what the format leaves free"""
    R = rng
    L = ["pico-8 cartridge // http://www.pico-8.com", f"version {c.version}", "__lua__"] + p8_to_uni(c.code).split("\n")
    d = default_rom()

    def rows(n, size, addr, fmt):
        out = [fmt(c.rom[addr + i * size:addr + i * size + size]) for i in range(n)]
        k = n
        if drop_defaults:
            while k and c.rom[addr + (k - 1) * size:addr + k * size] == d[addr + (k - 1) * size:addr + k * size]:
                k -= 1
        return out[:k]

    def sfx(b):
        s = b[64:68].hex()
        for n in range(32):
            v = b[n * 2] | b[n * 2 + 1] << 8
            s += "%02x%x%x%x" % (v & 63, (v >> 6) & 7 | (v >> 15) << 3, (v >> 9) & 7, (v >> 12) & 7)
        return s

    def music(b):
        return "%02x %s" % (sum((ch >> 7) << i for i, ch in enumerate(b)), bytes(ch & 127 for ch in b).hex())

    parts = []
    for name, rr in [("gfx", rows(128, 64, 0, lambda b: "".join("%x%x" % (v & 15, v >> 4) for v in b))),
                     ("label", ["".join("0123456789abcdefghijklmnopqrstuv"[v] for v in r) for r in c.label] if c.label else []),
                     ("gff", rows(2, 128, 0x3000, bytes.hex)), ("map", rows(32, 128, 0x2000, bytes.hex)),
                     ("sfx", rows(64, 68, 0x3200, sfx)), ("music", rows(64, 4, 0x3100, music))]:
        if rr:
            parts.append([f"__{name}__"] + rr)
    for k, v in c.meta.items():
        parts.append([f"__meta:{k}__"] + v)
    if R and R.random() < 0.3:
        R.shuffle(parts)
    for p in parts:
        L += p
        if R and not p[0].startswith("__meta") and R.random() < 0.3:
            L.append("")
    return newline.join(L) + newline


# ---------------------------------------------------------------- generators

def rand_rom(rng):
    """random data over the defaults; any byte value is legal in a rom"""
    r = bytearray(default_rom())
    style = rng.random()
    if style < 0.2:
        return bytes(r)
    if style < 0.35:
        return bytes(rng.randbytes(ROM_SIZE))
    areas = [(0, 0x1000), (0x1000, 0x2000), (0x2000, 0x3000), (0x3000, 0x3100), (0x3100, 0x3200), (0x3200, 0x4300)]
    for lo, hi in areas:
        k = rng.random()
        if k < 0.35:
            continue
        if k < 0.5:
            r[lo:hi] = rng.randbytes(hi - lo)
        elif k < 0.6:
            r[lo:hi] = bytes([rng.choice([0, 1, 0xff, 0x80, 0x7f, 0x10])]) * (hi - lo)
        else:
            for _ in range(rng.choice([1, 2, 5, 40])):
                a = rng.choice([rng.randrange(lo, hi), lo, hi - 1])
                n = min(rng.choice([1, 1, 4, 60, 130]), hi - a)
                r[a:a + n] = rng.randbytes(n)
    return bytes(r)


def rand_label(rng, maxc=31):
    k = rng.random()
    if k < 0.3:
        return [[rng.randrange(maxc + 1) for _ in range(128)] for _ in range(128)]
    rows = [[0] * 128 for _ in range(128)]
    if k < 0.9:
        for _ in range(rng.choice([1, 5, 30])):
            x, y, c = rng.choice([0, 127, rng.randrange(128)]), rng.choice([0, 127, rng.randrange(128)]), rng.randrange(maxc + 1)
            for d in range(rng.choice([1, 20, 128])):
                rows[y][(x + d) % 128] = c
    return rows


def rand_text(rng, n, kind=None):
    """random code-like text for compression: latin-1 style p8 string without NUL/CR, of length n"""
    kind = kind or rng.choice(["words", "words", "random", "repeat", "mixed", "mixed", "bytes", "lua", "edge", "blocks"])
    words = ["function", "local", "end", "if", "then", "x", "y", "player", " ", "\n", "=", "+", "1", "0.5", "spr(", ")", "for", "do", "return", "\t"]
    out = []
    size = 0

    def put(s):
        nonlocal size
        out.append(s)
        size += len(s)
    alpha = [chr(i) for i in range(1, 256) if i not in (13,)]
    while size < n:
        k = kind
        if kind == "mixed":
            k = rng.choice(["words", "random", "repeat", "bytes", "back"])
        if kind == "blocks":
            # long runs of incompressible text with compressible gaps around the literal-block decision
            put("".join(rng.choice(alpha) for _ in range(rng.choice([8, 20, 31, 32, 33, 40, 64, 200]))))
            put(rng.choice(["a", "ab", " ", "abcabcabc", "x" * 12, "local x=1\n", ""]) * rng.choice([1, 2, 3, 8]))
        elif k in ("words", "lua"):
            put(rng.choice(words))
        elif k == "random":
            put("".join(rng.choice(alpha) for _ in range(rng.choice([1, 5, 40, 200]))))
        elif k == "bytes":
            base = rng.randrange(1, 240)
            put("".join(chr(base + rng.randrange(12)) for _ in range(30)).replace("\r", "x").replace("\0", "x"))
        elif k == "repeat":
            s = "".join(rng.choice(alpha) for _ in range(rng.choice([1, 2, 3, 4, 7, 33])))
            put(s * rng.choice([2, 3, 10, 17, 18, 100, 1000]))
        elif k == "back":
            t = "".join(out)
            if len(t) > 4:
                a = rng.randrange(len(t) - 3)
                put(t[a:a + rng.choice([2, 3, 4, 9, 10, 11, 16, 17, 18, 19, 60])])
            else:
                put("abc")
        elif k == "edge":
            put(rng.choice(["a" * 31, "b" * 32, "c" * 33, "qwertyuiop", "\n", " ", "zz", "a", "b" * 3]))
    return "".join(out)[:n]
