"""Independent readers/writers of Picotron's cart formats. A cart is {path: bytes, or None for a directory (path ends with /)}"""
import base64, os, re, struct
from .carts import BadFormat, png_decode, png_encode
from .exports import lz4_decode, lz4_encode

ALT = b"_-"
IMG = (512, 384)


def b64e(data):
    return base64.b64encode(data, ALT)


def enc(name):
    return name.encode("utf8", "surrogateescape")


def dec(data):
    return data.decode("utf8", "surrogateescape")


# ---------------------------------------------------------------- p64

def needs_b64(data):
    return data.startswith(b"b64$") or b"\0" in data or b"\r" in data or re.search(rb"(?m)^:: ", data)


def write_p64(files, rng, version=2):
    out = b"picotron cartridge // www.picotron.net\nversion %d\n\n" % version
    names = list(files)
    rng.shuffle(names)
    for n in names:
        out += b":: " + enc(n) + b"\n"
        d = files[n]
        if d is None:
            continue
        if needs_b64(d) or re.search(rb"[^\n\t -~]", d) and rng.random() < 0.6:
            t = b"b64$" + b64e(d)
            out += b"".join(t[i:i + 76] + b"\n" for i in range(0, len(t), 76))
        else:
            out += d + b"\n"
    return out + b":: [eoc]\n"


def read_p64(data):
    lines = data.split(b"\n")
    if lines[0] != b"picotron cartridge // www.picotron.net" or not lines[1].startswith(b"version "):
        raise BadFormat("no p64 header")
    if lines[-1] != b"":
        raise BadFormat("no newline at the end of the p64")
    files, cur, body, ended = {}, None, [], False

    def flush():
        if cur is None:
            return
        if cur in files:
            raise BadFormat(f"{cur} is in the p64 twice")
        if cur.endswith("/"):
            if any(body):
                raise BadFormat("a directory with contents")
            files[cur] = None
            return
        d = b"\n".join(body)
        if d.startswith(b"b64$"):
            d = base64.b64decode(d[4:].replace(b"\n", b""), ALT, validate=True)
        elif b"\r" in d:
            raise BadFormat("carriage return in text of a p64")
        files[cur] = d
    for ln in lines[2:-1]:
        if ended:
            raise BadFormat("lines after [eoc]")
        if ln.startswith(b":: "):
            flush()
            cur, body = dec(ln[3:]), []
            if cur == "[eoc]":
                cur, ended = None, True
        elif cur is None:
            if ln:
                raise BadFormat("lines before the first file")
        else:
            body.append(ln)
    if not ended:
        raise BadFormat("no [eoc]")
    return files, int(lines[1][8:])


# ---------------------------------------------------------------- rom & png

def write_rom(files, rng, version=2):
    out = bytearray()
    for n in sorted(files):
        out += enc(n) + b"\0"
        d = files[n]
        if d is not None:
            out += (bytes([len(d)]) if len(d) < 255 else b"\xff" + struct.pack("<I", len(d))) + d
    z = lz4_encode(bytes(out), rng)
    return b"p64" + bytes([version]) + struct.pack("<I", len(z)) + z


def read_rom(data):
    if data[:3] != b"p64" or len(data) < 8:
        raise BadFormat("no rom header")
    size = struct.unpack("<I", data[4:8])[0]
    if 8 + size > len(data):
        raise BadFormat("rom runs past the end")
    raw = lz4_decode(data[8:8 + size])
    files, i = {}, 0
    while i < len(raw):
        j = raw.index(b"\0", i)
        name = dec(raw[i:j])
        i = j + 1
        if name in files:
            raise BadFormat(f"{name} is in the rom twice")
        if name.endswith("/"):
            files[name] = None
            continue
        n = raw[i]
        i += 1
        if n == 255:
            n = struct.unpack("<I", raw[i:i + 4])[0]
            i += 4
            if n < 255:
                raise BadFormat("long size for a short file")
        if i + n > len(raw):
            raise BadFormat("file runs past the end")
        files[name] = raw[i:i + n]
        i += n
    return files, data[3], data[8 + size:]


def write_png(files, rng, version=2, rows=None):
    data = write_rom(files, rng, version)
    v = int.from_bytes(data + bytes(16), "little")
    bits = bin(v)[2:][::-1]
    w, h = IMG
    vals = [int(bits[i:i + 11][::-1] or "0", 2) for i in range(0, min(len(bits), w * h * 11), 11)]
    if len(bits) > w * h * 11:
        raise BadFormat("too big")
    vals += [0] * (w * h - len(vals))
    out, k = [], 0
    for y in range(h):
        row = []
        for x in range(w):
            r, g, b, a = rows[y][x] if rows else (96, 96, 96, 255)
            t = vals[k]
            k += 1
            row.append((r & ~7 | t & 7, g & ~7 | t >> 3 & 7, b & ~7 | t >> 6 & 7, a & ~3 | t >> 9))
        out.append(row)
    return png_encode(out)


def png_bytes(data):
    """-> (hidden bytes, the visible rows)"""
    import io
    from PIL import Image
    im = Image.open(io.BytesIO(data)).convert("RGBA")  # (fast; only pixel access)
    if im.size != IMG:
        raise BadFormat(f"png of {im.size}")
    px = im.tobytes()
    acc, n, out = 0, 0, bytearray()
    for i in range(0, len(px), 4):
        acc |= (px[i] & 7 | (px[i + 1] & 7) << 3 | (px[i + 2] & 7) << 6 | (px[i + 3] & 3) << 9) << n
        n += 11
        while n >= 8:
            out.append(acc & 255)
            acc >>= 8
            n -= 8
    return bytes(out), px


def read_png(data):
    hidden, px = png_bytes(data)
    files, version, rest = read_rom(hidden)
    if any(rest):
        raise BadFormat("bits set after the cart's data")
    return files, version


# ---------------------------------------------------------------- directories

def write_dir(files, path):
    os.makedirs(path)
    for n in sorted(files):
        p = os.path.join(path, n)
        if files[n] is None:
            os.makedirs(p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(files[n])


def read_dir(path):
    files = {}
    for d, ds, fs in os.walk(path):
        rel = os.path.relpath(d, path)
        pre = "" if rel == "." else rel + "/"
        if pre:
            files[pre] = None
        for f in fs:
            with open(os.path.join(d, f), "rb") as h:
                files[pre + f] = h.read()
    return files
