"""Independent reader/writer of Picotron's pods (values as tagged tuples)."""
import base64, math, re, struct
from .carts import BadFormat
from .exports import lz4_decode, lz4_encode
from .p64 import ALT, b64e

# values: None, True/False, ("i", int), ("f", float), ("s", bytes), ("t", {key: value}), ("u", type, width, height, data)
# (tables keep no order; float keys with integral values become integers, as in Lua)


def wrap(n):
    return (n + (1 << 63)) % (1 << 64) - (1 << 63)


def canon_key(k):
    if isinstance(k, tuple) and k[0] == "f" and math.isfinite(k[1]) and k[1] == int(k[1]) and -2**63 <= k[1] < 2**63:
        return ("i", int(k[1]))
    return k


def freeze(v):
    if isinstance(v, tuple) and v[0] == "t":
        return ("t", frozenset((("K", type(k).__name__, freeze(k)), freeze(x)) for k, x in v[1].items()))
    if isinstance(v, tuple) and v[0] == "f":
        return ("f", struct.pack(">d", v[1]))
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, tuple) and v[0] == "u":
        return ("u", v[1], v[2], v[3] or 0, v[4].lower() if re.fullmatch(rb"[0-9a-fA-F]*", v[4]) else v[4])
    return v


# ---------------------------------------------------------------- pxu

PXU = {3: (b"u8", 1), 12: (b"i16", 2)}


def pxu_decode(data, i):
    """-> (userdata, end)"""
    if data[i:i + 4] != b"pxu\0":
        raise BadFormat("no pxu header")
    flags = struct.unpack("<H", data[i + 4:i + 6])[0]
    i += 6
    t, comp = flags & 15, flags >> 12
    if t not in PXU or flags & ~(0xf00f | 0x840) or comp not in (1, 2, 8):
        raise BadFormat(f"odd pxu flags {flags:#x}")
    name, size = PXU[t]

    def num(n):
        nonlocal i
        if i + n > len(data):
            raise BadFormat("pxu runs past the end")
        v = int.from_bytes(data[i:i + n], "little")
        i += n
        return v
    w = num(4 if flags & 0x800 else 1)
    h = num(4 if flags & 0x800 else 1) if flags & 0x40 else 0
    total = w * (h if flags & 0x40 else 1)
    out = []
    if comp == 1:
        out = [num(size) for _ in range(total)]
    else:
        bits = num(1)
        if bits != (4 if comp == 2 else 0):
            raise BadFormat("odd pxu bits")
        n = (1 << bits) - 1
        vals, order = list(range(n)), list(range(n))   # order: most recent slot first
        while len(out) < total:
            b = num(1)
            s, c = b & n, (b >> bits) + 1
            if s == n:
                v = num(size)
                if bits:
                    vals[order[-1]] = v
            else:
                order.remove(s)
                order.insert(0, s)
                v = vals[s]
            if c == 1 << (8 - bits):
                while True:
                    x = num(1)
                    c += x
                    if x != 255:
                        break
            out += [v] * c
        if len(out) != total:
            raise BadFormat(f"pxu holds {len(out)} instead of {total} values")
    hx = "".join(f"%0{2 * size}x" % v for v in out).encode()
    return ("u", name, w, h, hx), i


def pxu_encode(u, rng):
    """-> bytes, or None when that userdata can't be held"""
    _, name, w, h, data = u
    t = {b"u8": 3, b"i16": 12}.get(name)
    if t is None or not re.fullmatch(rb"[0-9a-f]*", data):
        return None
    size = PXU[t][1]
    if len(data) != 2 * size * w * (h or 1):
        return None
    vals = [int(data[i:i + 2 * size], 16) for i in range(0, len(data), 2 * size)]
    comp = rng.choice([1, 2 if t == 3 else 8])
    long = w > 255 or h > 255 or rng.random() < 0.2
    out = b"pxu\0" + struct.pack("<H", t | (0x40 if h else 0) | (0x800 if long else 0) | comp << 12)
    f = (lambda n: struct.pack("<I", n)) if long else (lambda n: bytes([n]))
    out += f(w) + (f(h) if h else b"")
    le = lambda v: v.to_bytes(size, "little")
    if comp == 1:
        return out + b"".join(map(le, vals))
    bits = 4 if comp == 2 else 0
    out = bytearray(out + bytes([bits]))
    n = (1 << bits) - 1
    slots, order = list(range(n)), list(range(n))
    i = 0
    while i < len(vals):
        j = i
        while j < len(vals) and vals[j] == vals[i] and j - i < 3000:
            j += 1
        c = j - i
        if vals[i] in slots and (rng.random() < 0.95):
            s = slots.index(vals[i])
            order.remove(s)
            order.insert(0, s)
        else:
            s = n
            if bits:
                slots[order[-1]] = vals[i]
        m = 1 << (8 - bits)
        out.append(s | (min(c, m) - 1) << bits)
        if s == n:
            out += le(vals[i])
        if c >= m:
            c -= m
            while c >= 255:
                out.append(255)
                c -= 255
            out.append(c)
        i = j
    return bytes(out)


# ---------------------------------------------------------------- text

ESC = {ord(a): b for a, b in zip("abfnrtv\\\"'\n", b"\a\b\f\n\r\t\v\\\"'\n")}


class Reader:
    def __init__(m, data, stats=None):
        m.d, m.i, m.stats = data, 0, stats if stats is not None else {}

    def err(m, s):
        raise BadFormat(f"pod: {s} at {m.i}: {m.d[max(0, m.i - 20):m.i + 30]!r}")

    def ws(m):
        while m.i < len(m.d) and m.d[m.i] in b" \t\r\n\v\f":
            m.i += 1

    def eat(m, s):
        m.ws()
        if m.d.startswith(s, m.i):
            m.i += len(s)
            return True
        return False

    def need(m, s):
        if not m.eat(s):
            m.err(f"expected {s!r}")

    def word(m):
        mt = re.compile(rb"[A-Za-z_\x80-\xff][A-Za-z_0-9\x80-\xff]*").match(m.d, m.i)
        return mt.group() if mt else None

    def string(m):
        q = m.d[m.i]
        if q == 0x5b:
            mt = re.compile(rb"\[(=*)\[").match(m.d, m.i)
            e = m.d.find(b"]" + mt.group(1) + b"]", mt.end())
            if e < 0:
                m.err("unclosed string")
            s = m.d[mt.end():e]
            m.i = e + len(mt.group())
            s = re.sub(rb"\r\n|\n\r|\r", b"\n", s)
            return s[1:] if s.startswith(b"\n") else s
        m.i += 1
        out = bytearray()
        while True:
            if m.i >= len(m.d):
                m.err("unclosed string")
            c = m.d[m.i]
            m.i += 1
            if c == q:
                return bytes(out)
            if c in b"\r\n":
                m.err("line break in a string")
            if c != 0x5c:
                out.append(c)
                continue
            c = m.d[m.i]
            m.i += 1
            if c in ESC:
                out.append(ESC[c])
                if c == 10 and m.d[m.i:m.i + 1] == b"\r":
                    m.i += 1
            elif c == ord("z"):
                m.ws()
            elif c == ord("x"):
                out.append(int(m.d[m.i:m.i + 2], 16))
                m.i += 2
            elif c == ord("u"):
                mt = re.compile(rb"\{([0-9a-fA-F]+)\}").match(m.d, m.i)
                if not mt:
                    m.err("bad \\u")
                m.i = mt.end()
                out += chr(int(mt.group(1), 16)).encode("utf8", "surrogatepass")
            elif 48 <= c <= 57:
                mt = re.compile(rb"[0-9]{1,3}").match(m.d, m.i - 1)
                m.i = mt.end()
                if int(mt.group()) > 255:
                    m.err("bad escape")
                out.append(int(mt.group()))
            else:
                m.err("bad escape")

    def number(m):
        r = re.compile(rb"0[xX]([0-9a-fA-F]*)(?:(\.)([0-9a-fA-F]*))?([pP][+-]?[0-9]+)?|([0-9]*)(?:(\.)([0-9]*))?([eE][+-]?[0-9]+)?")
        mt = r.match(m.d, m.i)
        t = mt.group()
        if not t or t in b".":
            m.err("bad number")
        m.i = mt.end()
        if m.i < len(m.d) and (m.d[m.i:m.i + 1].isalnum() or m.d[m.i] in b"_."):
            m.err("malformed number")
        if mt.group(1) is not None:
            if mt.group(2) is None and mt.group(4) is None:
                return ("i", wrap(int(t, 16)))
            return ("f", float.fromhex(t.decode() if mt.group(4) else t.decode() + "p0"))
        if mt.group(6) is None and mt.group(8) is None:
            n = int(t)
            return ("i", n) if n < 2**63 else ("f", float(n))
        return ("f", float(t))

    def value(m):
        m.ws()
        if m.i >= len(m.d):
            m.err("value missing")
        c = m.d[m.i:m.i + 1]
        if m.d.startswith(b"pxu\0", m.i):
            u, m.i = pxu_decode(m.d, m.i)
            m.stats["pxu"] = m.stats.get("pxu", 0) + 1
            return u
        if c in (b'"', b"'") or re.compile(rb"\[=*\[").match(m.d, m.i):
            return ("s", m.string())
        if c == b"-":
            m.i += 1
            m.ws()
            k, n = m.number()
            return ("i", wrap(-n)) if k == "i" else ("f", -n)
        if c.isdigit() or c == b".":
            return m.number()
        if c == b"{":
            return m.table()
        w = m.word()
        if w in (b"nil", b"true", b"false"):
            m.i += len(w)
            return {b"nil": None, b"true": True, b"false": False}[w]
        if w == b"userdata":
            m.i += len(w)
            m.need(b"(")
            args = [m.value()]
            while m.eat(b","):
                args.append(m.value())
            m.need(b")")
            if len(args) not in (3, 4) or args[0][0] != "s" or args[-1][0] != "s" or any(a[0] != "i" for a in args[1:-1]):
                m.err("bad userdata")
            return ("u", args[0][1], args[1][1], args[2][1] if len(args) == 4 else 0, args[-1][1])
        if w == b"unpod":
            m.i += len(w)
            m.need(b"(")
            s = m.value()
            m.need(b")")
            return decode(s[1], m.stats)
        m.err("unknown value")

    def table(m):
        m.need(b"{")
        out, index = {}, 1
        while not m.eat(b"}"):
            m.ws()
            w = m.word()
            j = m.i
            if w and w not in (b"nil", b"true", b"false") and re.compile(rb"\s*=(?!=)").match(m.d, m.i + len(w)):
                m.i += len(w)
                m.need(b"=")
                k, v = ("s", w), m.value()
            elif m.d[m.i:m.i + 1] == b"[" and not re.compile(rb"\[=*\[").match(m.d, m.i):
                m.i += 1
                k = canon_key(m.value())
                m.need(b"]")
                m.need(b"=")
                v = m.value()
            else:
                k, v = ("i", index), m.value()
                index += 1
            kk = freeze(k)
            if isinstance(k, tuple) and k[0] in "tu":
                m.err("odd key")
            if v is None:
                out.pop(("b", k) if isinstance(k, bool) else k, None)
            else:
                out[("b", k) if isinstance(k, bool) else k] = v
            if not (m.eat(b",") or m.eat(b";")):
                m.need(b"}")
                break
            if m.i == j:
                m.err("stuck")
        return ("t", out)


def parse(text, stats=None):
    r = Reader(text, stats)
    v = r.value()
    r.ws()
    if r.i != len(text):
        r.err("rests after the value")
    return v


def unwrap(data, stats=None):
    stats = stats if stats is not None else {}
    if data.startswith(b"b64:"):
        data = base64.b64decode(data[4:], ALT, validate=True)
        stats["b64"] = 1
    if data.startswith(b"lz4\0"):
        n, u = struct.unpack("<II", data[4:12])
        if n != len(data) - 12:
            raise BadFormat("lz4 pod with a wrong size")
        data = lz4_decode(data[12:])
        if len(data) != u:
            raise BadFormat("lz4 pod with a wrong uncompressed size")
        stats["lz4"] = 1
    return data


def decode(data, stats=None):
    return parse(unwrap(data, stats), stats)


# ---------------------------------------------------------------- writing (with all the freedom the syntax leaves)

def w_string(s, rng):
    k = rng.random()
    if k < 0.12 and b"\r" not in s and b"]" not in s and b"\0" not in s:
        e = b"=" * rng.choice([0, 0, 1])
        return b"[" + e + b"[" + (b"\n" if s.startswith(b"\n") else b"") + s + b"]" + e + b"]"
    q = rng.choice([34, 34, 34, 39])
    out = bytearray([q])
    for i, c in enumerate(s):
        if c in (q, 0x5c):
            out += b"\\" + bytes([c])
        elif c == 10:
            out += rng.choice([b"\\n", b"\\10" if not s[i + 1:i + 2].isdigit() else b"\\010", b"\\x0a"])
        elif c == 13 or c == 0:
            out += rng.choice([b"\\%03d" % c, b"\\x%02x" % c])
        elif c < 32 and rng.random() < 0.8 or rng.random() < 0.02:
            out += rng.choice([b"\\%03d" % c, b"\\x%02x" % c])
        else:
            out.append(c)
    out.append(q)
    return bytes(out)


def w_number(v, rng):
    t, n = v
    if t == "i":
        if n == -2**63:
            return b"0x8000000000000000"
        k = rng.random()
        if k < 0.15:
            return b"0x%x" % (n % (1 << 64))
        return b"%d" % n
    if n == 0 and math.copysign(1, n) < 0:
        return b"-0.0"
    k = rng.random()
    if k < 0.2 and n >= 0:
        h = n.hex()
        return h.encode()
    s = repr(n)
    if k < 0.5:
        s = "%.17g" % n
    if s.lstrip("-").isdigit():
        s += ".0"
    return s.encode()


def w_value(v, rng, pxu=0.0):
    if v is None or isinstance(v, bool):
        return {None: b"nil", True: b"true", False: b"false"}[v]
    t = v[0]
    if t == "s":
        return w_string(v[1], rng)
    if t in "if":
        return w_number(v, rng)
    if t == "u":
        p = pxu_encode(v, rng) if rng.random() < pxu else None
        if p:
            return p
        return b"userdata(" + w_string(v[1], rng) + b",%d," % v[2] + (b"%d," % v[3] if v[3] else b"") + b'"' + v[4] + b'")'
    sp = lambda: rng.choice([b"", b"", b"", b" ", b"\n"])
    parts, index = [], 1
    for k, x in v[1].items():
        if k == ("i", index) and rng.random() < 0.9:
            parts.append(w_value(x, rng, pxu))
            index += 1
        elif isinstance(k, tuple) and k[0] == "s" and re.fullmatch(rb"[A-Za-z_][A-Za-z0-9_]*", k[1]) and k[1] not in KEYWORDS and rng.random() < 0.9:
            parts.append(k[1] + sp() + b"=" + sp() + w_value(x, rng, pxu))
        else:
            kk = k[1] if isinstance(k, tuple) and k[0] == "b" else k
            t = w_value(kk, rng, 0)
            parts.append(b"[" + (b" " if t[:1] == b"[" else b"") + t + b"]=" + w_value(x, rng, pxu))
    return b"{" + sp() + (b"," + sp()).join(parts) + (b"," if parts and rng.random() < 0.1 else b"") + sp() + b"}"


KEYWORDS = set(b"and break do else elseif end false for function goto if in local nil not or repeat return then true until while userdata unpod".split())


def encode(v, rng, lz4=0.3, b64=0.1, pxu=0.4):
    data = w_value(v, rng, pxu)
    if rng.random() < lz4:
        z = lz4_encode(data, rng)
        data = b"lz4\0" + struct.pack("<II", len(z), len(data)) + z
    if rng.random() < b64:
        data = b"b64:" + b64e(data)
    return data
