"""C21: cart conversions lose nothing."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, carts, luagen
from vlib.core import Family, REPO
from vlib.tool import cli, Scratch, p8_to_uni, CHARSET

PROP = "C21"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: chains of real conversions, every written file decoded by independent readers and compared with a model of the cart"
RULE = "a case counts as distinct when the (cart content, target format, options) triple is new"
ASSUMPTIONS = ["the independent format readers follow the published formats",
               "a line break at the very end of a plain .lua file is not part of the code",
               "NUL and CR characters and lines that look like section headers cannot be part of code"]

ITALIC = {c: chr(65 + i) for i, c in enumerate("𝘢𝘣𝘤𝘥𝘦𝘧𝘨𝘩𝘪𝘫𝘬𝘭𝘮𝘯𝘰𝘱𝘲𝘳𝘴𝘵𝘶𝘷𝘸𝘹𝘺𝘻")}
_cache = {}


def res(name):
    if name not in _cache:
        for d in ("res", "."):
            p = os.path.join(REPO, d, name)
            if os.path.exists(p):
                _cache[name] = carts.png_decode(open(p, "rb").read())[2]
    return _cache[name]


def clean_code(c):
    c = c.replace("\r", "x").replace("\0", "x")
    c = re.sub(r"(?m)^__", "_-", c)
    return re.sub(r"#include", "#imclude", c)


def rand_code(rng, small=False):
    k = rng.random()
    if k < 0.15:
        return rng.choice(["", "x=1", "\n", "a=1\n", "\n\n", "--hi", "-- hi\n-- there\nx=1", " ", "print(\"hi\")"])
    if k < 0.4:
        t = "".join("--" + rng.choice(["", " "]) + "".join(rng.choice("abc XYZ\x80\x97\x8b!~0\x10") for _ in range(rng.choice([0, 3, 12, 40]))) + "\n"
                    for _ in range(rng.choice([1, 2, 3])))
        return clean_code(t + carts.rand_text(rng, rng.choice([0, 30, 300]), "words"))
    if k < 0.6 and not small:
        return clean_code(luagen.program(rng, size=rng.choice([5, 20])))
    if k < 0.7 and not small:
        return clean_code(carts.rand_text(rng, rng.choice([15615, 15616, 15617, 15700]), "words"))
    # every character, in every position of a line
    return clean_code("".join(rng.choice([chr(rng.randrange(1, 256)), rng.choice("\n \tAZaz09_")]) for _ in range(rng.choice([5, 50, 400]))))


class Model:
    def __init__(m):
        m.code, m.rom, m.label, m.version, m.parts, m.platform, m.meta = "", carts.default_rom(), None, None, None, None, {}


def norm_label(l):
    return l if l and any(any(r) for r in l) else None


def title_of(m):
    if "title" in m.meta:
        from vlib.tool import uni_to_p8
        return "\n".join(uni_to_p8(l) for l in m.meta["title"])
    t = ""
    for line in m.code.split("\n")[:2]:
        mt = re.fullmatch(r"-- ?(.*)", line, re.S)
        if mt:
            t += mt.group(1)
        t += "\n"
    return t.rstrip("\n")


def expected_image(m, template, template_only):
    """rows with the 6 high bits of each channel"""
    rows = [[[v & 252 for v in px] for px in r] for r in template]
    if template_only:
        return rows
    if m.label:
        for y in range(128):
            for x in range(128):
                i = m.label[y][x]
                if i:
                    rows[24 + y][16 + x] = [v & 252 for v in carts.PALETTE[i]] + [252]
    font = res("font.png")
    x = y = 0
    for ch in title_of(m):
        c = ord(ch)
        if ch == "\n":
            x = 0
            y += 8
            if y >= 16:
                break
            continue
        w = 8 if c >= 128 else 4
        if x + w <= 124:
            for dy in range(6):
                for dx in range(w):
                    px = font[c // 16 * 6 + dy][c % 16 * 8 + dx]
                    if px[3] == 255:
                        rows[167 + y + dy][18 + x + dx] = [v & 252 for v in px]
                    elif px[3]:
                        rows[167 + y + dy][18 + x + dx] = None
        x += w
    return rows


def cmp_image(m, rows, template, template_only):
    exp = expected_image(m, template, template_only)
    for y in range(205):
        for x in range(160):
            e = exp[y][x]
            if e is not None:
                g = [v & 252 for v in rows[y][x]]
                if e != g and not (e[3] == 0 and g[3] == 0):
                    return f"pixel {x},{y} is {g}, expected {e} (title {title_of(m)!r})"
    return None


def diff(m, c, fields):
    for f in fields:
        if f == "code" and c.code != m.code:
            i = next((i for i, (a, b) in enumerate(zip(c.code, m.code)) if a != b), min(len(c.code), len(m.code)))
            return f"code differs at {i}: {c.code[max(0,i-15):i+15]!r} instead of {m.code[max(0,i-15):i+15]!r}"
        if f == "rom" and c.rom != m.rom:
            i = next(i for i in range(len(m.rom)) if c.rom[i] != m.rom[i])
            return f"rom differs at {i:#x}: {c.rom[i]:#x} instead of {m.rom[i]:#x}"
        if f == "gfx" and c.rom[:0x2000] != m.rom[:0x2000]:
            return "gfx differs"
        if f == "label" and norm_label(c.label) != norm_label(m.label):
            return "label differs"
        if f == "version" and m.version is not None and c.version != m.version:
            return f"version {c.version} instead of {m.version}"
        if f == "parts" and m.parts is not None and c.verparts != m.parts:
            return f"version parts {c.verparts} instead of {m.parts}"
        if f == "platform" and m.platform is not None and c.platform != m.platform:
            return f"platform {c.platform!r} instead of {m.platform!r}"
        if f == "meta" and c.meta != m.meta:
            return f"meta sections {c.meta} instead of {m.meta}"
        if f == "hash" and not c.hash_ok:
            return "the written hash is wrong"
    return None


EXT = {"p8": ".p8", "png": ".p8.png", "rom": ".rom", "clip": ".clip", "url": ".url", "lua": ".lua", "tiny-rom": ".bin", "label": ".png", "spritesheet": ".png"}


def decode(fmt, data, opts):
    text = None
    if fmt in ("p8", "lua", "clip", "url"):
        text = data.decode("utf8")
        if b"\r" in data:
            raise carts.BadFormat("CR in a text format")
    if "-u" in opts and fmt in ("p8", "lua"):
        body = text[text.find("__lua__") + 8:] if fmt == "p8" else text
        body = body.split("\n__gfx__")[0].split("\n__label__")[0].split("\n__meta")[0]
        if re.search("[A-Z]", body):
            raise carts.BadFormat("ascii capitals under --unicode-caps")
        text = "".join(ITALIC.get(c, c) for c in text)
    if fmt == "p8":
        return carts.read_p8(text)
    if fmt == "png":
        return carts.read_png(data)
    if fmt == "rom":
        return carts.read_rom(data)
    if fmt == "tiny-rom":
        return carts.read_tiny(data)
    if fmt == "clip":
        return carts.read_clip(text)
    if fmt == "url":
        return carts.read_url(text)
    if fmt == "lua":
        from vlib.tool import uni_to_p8
        return carts.Cart(code=uni_to_p8(text))
    w, h, rows = carts.png_decode(data)
    if (w, h) != (128, 128):
        raise carts.BadFormat("label/spritesheet image has a wrong size")
    lab = carts.label_from_image(rows)
    if any(v is None for r in lab for v in r):
        raise carts.BadFormat("colour outside the palette")
    if fmt == "label":
        for y in range(128):
            for x in range(128):
                if (rows[y][x][3] == 0) != (lab[y][x] == 0):
                    raise carts.BadFormat("label transparency wrong")
        return carts.Cart(label=lab)
    rom = bytearray(carts.default_rom())
    for y in range(128):
        for x in range(0, 128, 2):
            if max(lab[y][x], lab[y][x + 1]) > 15:
                raise carts.BadFormat("spritesheet colour above 15")
            rom[y * 64 + x // 2] = lab[y][x] | lab[y][x + 1] << 4
    return carts.Cart(rom=bytes(rom))


CARRY = {"p8": ["code", "rom", "label", "version", "meta"],
         "png": ["code", "rom", "label", "version", "parts", "platform", "hash"],
         "clip": ["code", "rom", "label", "version", "parts", "platform", "hash"],
         "rom": ["code", "rom"], "tiny-rom": ["code"], "url": ["code", "gfx"], "lua": ["code"],
         "label": ["label"], "spritesheet": ["gfx"]}


def small_gfx(rng):
    r = bytearray(carts.default_rom())
    for _ in range(rng.choice([0, 1, 3, 8])):
        a = rng.choice([0, 0x1ff0, rng.randrange(0x1ff0)])
        v = rng.randrange(256)
        for i in range(rng.choice([1, 2, 16, 33, 34, 35, 64, 100])):
            if a + i < 0x2000:
                r[a + i] = rng.choice([v, v, v, rng.randrange(256)])
    if rng.random() < 0.15:
        r[0x1fff] = rng.choice([0x10, 1, 0])
    if rng.random() < 0.1:
        r[:0x2000] = bytes([rng.choice([0x11, 0xff, 0])]) * 0x2000
    return bytes(r)


def first_file(rng, s, m, src):
    """writes the initial input, with our own writers, in one of the formats. -> (path, format)"""
    if src == "p8":
        t = carts.write_p8(m, rng, newline=rng.choice(["\n", "\n", "\r\n"]))
        if rng.random() < 0.1:
            t = t.replace("version %d" % m.version, "version %d " % m.version)
        return s.write("in0.p8", t)
    if src == "lua":
        return s.write("in0.lua", p8_to_uni(m.code) + "\n")
    code = m.code.encode("latin-1")
    data = bytearray(0x8020)
    data[:0x4300] = m.rom
    data[0x4300:0x4300 + len(code)] = code
    if src == "rom":
        return s.write("in0.rom", bytes(data[:0x8000]))
    import hashlib
    data[0x8000] = m.version
    data[0x8001:0x8004] = bytes(m.parts[:3])
    data[0x8004] = ord(m.platform)
    data[0x8005] = m.parts[3]
    data[0x8006:0x801a] = hashlib.sha1(bytes(data[:0x8000])).digest()
    rows = [list(r) for r in res("template.png")]
    if m.label:
        for y in range(128):
            for x in range(128):
                rows[24 + y][16 + x] = carts.PALETTE[m.label[y][x]] + (255,)
    png = carts.png_encode(carts.image_with_bytes(rows, data))
    if src == "png":
        return s.write("in0.p8.png", png)
    return s.write("in0.clip", "[cart]" + png.hex() + "[/cart]" + rng.choice(["", "\n"]))


def chain(rng, rec):
    m = Model()
    src = rng.choice(["p8", "p8", "p8", "png", "rom", "lua", "clip"])
    m.code = rand_code(rng)
    while src in ("png", "rom", "clip") and len(m.code) > 15615:
        m.code = rand_code(rng)
    if src == "lua" and re.match(r"pico-8 cartridge|__lua__", m.code):
        return
    urlish = rng.random() < 0.15
    if src != "lua":
        m.rom = small_gfx(rng) if urlish else carts.rand_rom(rng)
    if src in ("p8", "png", "clip"):
        m.version = rng.choice([43, 42, 41, 36, 29, 18, 8, 5, 16, 0, 33])
        if rng.random() < 0.6:
            m.label = carts.rand_label(rng)
    if src in ("png", "clip"):
        m.parts = tuple(rng.choice([0, 1, 2, 6, 7, 255]) for _ in range(4))
        m.platform = rng.choice("wlmExP")
    if src == "p8":
        for k in rng.sample(["title", "foo", "cart_info", "x:y"], rng.choice([0, 0, 1, 2])):
            m.meta[k] = ["".join(rng.choice(["a", "B ", "é", "🅾️", "1", "=", " ", "\t", "♥"]) for _ in range(rng.choice([0, 4, 20])))
                         for _ in range(rng.choice([1, 2, 3]))]
            if k == "title":
                m.meta[k] = [l.replace("é", "e") for l in m.meta[k]]
            if m.meta[k][-1].strip() == "":
                m.meta[k][-1] = "end"
    with Scratch() as s:
        path, fmt = first_file(rng, s, m, src), src
        for step in range(rng.choice([1, 1, 2, 3])):
            to = rng.choice(["p8", "p8", "png", "png", "rom", "tiny-rom", "clip", "lua", "label", "spritesheet"] + ["url"] * (8 if urlish else 0))
            opts = []
            if to in ("p8", "lua") and rng.random() < 0.3:
                opts.append("-u")
            tmpl, tonly = res("template.png"), False
            if to in ("png", "clip"):
                if rng.random() < 0.2:
                    opts.append("--optimize-png-compression")
                if rng.random() < 0.2:
                    bg = tuple(rng.randrange(256) for _ in range(3)) + (255,)
                    tmpl = [[bg if (x // 8 + y // 8) % 3 else (0, 0, 0, 255) for x in range(160)] for y in range(205)]
                    opts += ["--template-image", s.write("tmpl.png", carts.png_encode(tmpl))]
                if rng.random() < 0.15:
                    opts.append("--template-only")
                    tonly = True
            want_rest = {}
            if to == "p8" and rng.random() < 0.1 or to in ("png", "clip") and rng.random() < 0.2:
                t = [rng.choice(["My Game", "🅾️ x ❎", "by ME"]) for _ in range(rng.choice([1, 2]))]
                for l in t:
                    opts += ["--title", l]
                m.meta = dict(m.meta, title=t)
            if rng.random() < 0.15:
                lab = carts.rand_label(rng, 15)
                rows = [[carts.PALETTE[v] + (255,) for v in r] for r in lab]
                opts += ["--label", s.write("lab.png", carts.png_encode(rows))]
                m.label = lab
            outp = s.path(f"out{step}" + EXT[to])
            args = [path, outp] + opts
            if to in ("tiny-rom", "label", "spritesheet") or rng.random() < 0.3:
                args += ["-f", to]
            if fmt in ("tiny-rom", "label", "spritesheet") or rng.random() < 0.3:
                args += ["-F", fmt]
            r = cli(args)
            what = f"{fmt}->{to} {' '.join(map(str, opts))}"
            det = dict(code=m.code[:1500], src=src, args=[str(a) for a in args])
            if r.crashed:
                rec.violation("tool-crash", f"crash in {what}", **det, **r.brief())
                return
            if r.rc != 0:
                if "too much compressed space" in r.err and len(m.code) > 9000 or "url has too many" in r.err and to == "url":
                    rec.event("refused")
                    return
                rec.violation("refused", f"{what} failed: {r.err[:200]}", **det)
                return
            try:
                c = decode(to, s.read(f"out{step}" + EXT[to]), opts)
            except (carts.BadFormat, ValueError) as ex:
                rec.violation("malformed", f"{what}: written file is not well formed: {ex}", **det)
                return
            rec.event("conv " + fmt + ">" + to)
            rec.eval((m.code, m.rom, repr(m.label), to, tuple(opts)))
            fields = [f for f in CARRY[to]]
            if to in ("png", "clip") and (tonly or tmpl is not res("template.png")):
                fields.remove("label")
            d = diff(m, c, fields)
            if not d and to in ("png", "clip"):
                rec.event("images")
                d = cmp_image(m, c.rows, tmpl, tonly)
                if tmpl is not res("template.png"):
                    m.label = c.label if all(v is not None for row in c.label for v in row) else [[v or 0 for v in row] for row in c.label]
            if d:
                rec.violation("lost", f"{what}: {d}", **det)
                return
            # what the next step has to work with
            keep = set(CARRY[to])
            n = Model()
            if to == "lua":
                n.code = m.code[:-1] if m.code.endswith("\n") else m.code
                if re.match(r"pico-8 cartridge|__lua__", n.code):
                    return
            elif "code" in keep:
                n.code = m.code
            if "rom" in keep:
                n.rom = m.rom
            elif "gfx" in keep:
                n.rom = m.rom[:0x2000] + n.rom[0x2000:]
            if "label" in keep:
                n.label = m.label if not tonly else [[v or 0 for v in row] for row in c.label]
            if "version" in keep:
                n.version = c.version
            if "parts" in keep:
                n.parts, n.platform = c.verparts, c.platform
            if "meta" in keep:
                n.meta = m.meta
            m, path, fmt = n, outp, to
    rec.sample(dict(src=src, code=m.code[:80]))


FAMILIES = [Family("chain", chain, 1500, 40000, need=["images", "conv p8>png", "conv png>p8", "conv rom>p8", "conv p8>clip", "conv p8>url"])]

if __name__ == "__main__":
    sys.exit(core.main(sys.modules[__name__]))
