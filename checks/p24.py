"""C24: P8SCII and unicode text convert back and forth without loss."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, carts
from vlib.core import Family
from vlib.tool import cli, Scratch, CHARSET
from vlib.mini import p8_text, HEAD

PROP = "C24"
LEVEL = "exploration"
LEVEL_NOTE = ("every pair of characters in both directions is exhaustive; longer texts, foreign characters and invalid bytes are sampled")
TECHNIQUE = "runtime monitoring: files written and read by the real tool are compared, character by character, with an independent table of PICO-8's character set"
RULE = "a case counts as distinct when the text is new"
ASSUMPTIONS = ["the character table is PICO-8's published one", "characters outside of it are read as the bytes of their UTF-8 form (as PICO-8 does)",
               "NUL, CR and lines that look like section headers cannot be part of code in text formats"]
CAPS = "𝘢𝘣𝘤𝘥𝘦𝘧𝘨𝘩𝘪𝘫𝘬𝘭𝘮𝘯𝘰𝘱𝘲𝘳𝘴𝘵𝘶𝘷𝘸𝘹𝘺𝘻"
SINGLE = {c: i for i, c in enumerate(CHARSET) if len(c) == 1}
DOUBLE = {c: i for i, c in enumerate(CHARSET) if len(c) == 2}
SINGLE.update((c, 65 + i) for i, c in enumerate(CAPS))
OK = [i for i in range(1, 256) if i != 13]


def to_uni(codes, caps=False):
    return "".join(CAPS[c - 65] if caps and 65 <= c < 91 else CHARSET[c] for c in codes)


def to_codes(text):
    out, i = [], 0
    while i < len(text):
        if text[i:i + 2] in DOUBLE:
            out.append(DOUBLE[text[i:i + 2]])
            i += 2
            continue
        c = text[i]
        i += 1
        if ord(c) < 0x80:
            out.append(ord(c))
        elif c in SINGLE:
            out.append(SINGLE[c])
        else:
            out += list(c.encode("utf8", "surrogateescape"))
    return out


def rom_with(codes):
    data = bytearray(carts.default_rom())
    data = data[:0x4300] + bytearray(0x3d00)
    assert len(codes) < 0x3d00
    data[0x4300:0x4300 + len(codes)] = bytes(codes)
    return bytes(data[:0x8000])


def fail(rec, r, s, name, what, **kw):
    if r.crashed or r.rc != 0 or not s.exists(name):
        rec.violation("tool-crash" if r.crashed else "rejected", what, **kw, **r.brief())
        return True


def write_side(rec, codes, exts=("p8", "lua", "clip")):
    """the tool writes P8SCII as the right unicode text"""
    with Scratch() as s:
        inp = s.write("in.rom", rom_with(codes))
        for ext in exts:
            for caps in ((False, True) if ext != "clip" else (False,)):
                out = "out." + ext
                args = [inp, s.path(out)] + (["--unicode-caps"] if caps and ext == "p8" else [])
                if caps and ext != "p8":
                    continue
                r = cli(args)
                if fail(rec, r, s, out, f"conversion to {ext} failed", codes=list(codes)):
                    return False
                data = s.read(out)
                rec.event("written_" + ext, len(codes))
                if ext == "clip":
                    continue
                try:
                    text = data.decode("utf8")
                except UnicodeError as e:
                    rec.violation("encoding", f"{ext} output isn't UTF-8: {e}", codes=list(codes))
                    return False
                want = to_uni(codes, caps)
                if ext == "p8":
                    body = text.split("__lua__\n", 1)[1] if "__lua__\n" in text else ""
                    ok = body == want + "\n" or body == want or body.rstrip("\n") == want.rstrip("\n")
                else:
                    ok = text.rstrip("\n") == want.rstrip("\n")
                    body = text
                if not ok:
                    rec.violation("charset", f"{codes[:12]}... written as {body[:60]!r}, not {want[:60]!r} ({ext}{' unicode caps' if caps else ''})", codes=list(codes))
                    return False
    return True


def read_side(rec, text, codes, ext, nl="\n", extra=()):
    """the tool reads unicode text as the right P8SCII"""
    with Scratch() as s:
        src = text
        if ext == "p8":
            src = HEAD % 43 + "__lua__\n" + text + "\n__gfx__\n" + "1" * 128 + "\n"
        data = src.replace("\n", nl).encode("utf8", "surrogateescape")
        inp = s.write("in." + ext, data)
        r = cli([inp, s.path("out.rom")] + list(extra))
        if fail(rec, r, s, "out.rom", f"conversion from {ext} failed", text=text):
            return False
        got = carts.read_rom(s.read("out.rom"))
        gc = [ord(c) for c in got.code]
        rec.event("read_" + ext, len(codes))
        strip = lambda l: bytes(l).rstrip(b"\n")
        if strip(gc) != strip(codes):
            k = next((i for i, (a, b) in enumerate(zip(gc, codes)) if a != b), min(len(gc), len(codes)))
            rec.violation("charset", f"{text[max(0, k - 8):k + 8]!r} read as {bytes(gc[max(0, k - 8):k + 8])!r}, not {bytes(codes[max(0, k - 8):k + 8])!r} ({ext})", text=text, codes=list(codes))
            return False
        if ext == "p8" and got.rom[:4] == bytes(4):
            rec.violation("sections", "the sections after the code got lost", text=text)
            return False
    return True


def valid(codes):
    return b"\n__" not in b"\n" + bytes(codes) and b"#inc" not in bytes(codes)


def pairs(rng, rec):
    """every ordered pair of characters, in both directions (case i: first character i)"""
    a = OK[rng.index % len(OK)]
    codes = []
    for b in OK:
        codes += [a, b]
        codes.append(0x20 if b != 0x5f else 0x2b)
    if not valid(codes):
        codes = [0x20] + [c if c != 0x5f else 0x2d for c in codes]
    write_side(rec, codes, ("p8", "lua"))
    text = to_uni(codes)
    read_side(rec, text, codes, "p8")
    read_side(rec, text, codes, "lua")
    read_side(rec, to_uni(codes, True), codes, "p8")
    rec.event("pairs", len(OK))
    rec.eval(a)


FOREIGN = ["é", "ß", "日", "本", "🎉", "\ufe0f", "\ufe0e", "\u200d", "⬇", "⬅", "➡", "⬆", "🅾", "♥\ufe0f", "★\ufe0f", "❎\ufe0f", "˜", "\u0301", "\ufeffx", "\u2028", "\x85", "\x0b", "\x0c", "\x1c",
           "\x7f", "\u00a0", "“", "\udc80", "\udcff", "\udce2\udc96", "ａ", "ﾊ", "한"]


def mixed(rng, rec):
    n = rng.choice([1, 3, 10, 60, 300])
    out = []
    for _ in range(n):
        x = rng.random()
        if x < 0.3:
            out.append(rng.choice(FOREIGN))
        elif x < 0.6:
            out.append(CHARSET[rng.choice(OK)])
        elif x < 0.7:
            out.append(rng.choice(CAPS))
        elif x < 0.9:
            out.append(chr(rng.randrange(32, 127)))
        elif x < 0.95:
            out.append(rng.choice("\n\t "))
        else:
            c = chr(rng.choice([rng.randrange(0x80, 0x3000), rng.randrange(0x3000, 0xd800), rng.randrange(0x10000, 0x11000), rng.randrange(0x1f300, 0x1f700)]))
            out.append(c)
    text = "".join(out)
    # surrogate-escaped bytes must not combine into valid characters
    text = text.encode("utf8", "surrogateescape").decode("utf8", "surrogateescape")
    codes = to_codes(text)
    if not valid(codes) or 0 in codes or 13 in codes or text.startswith("\ufeff"):
        return
    ext = rng.choice(["p8", "lua"])
    nl = rng.choice(["\n", "\n", "\r\n"])
    if read_side(rec, text, codes, ext, nl) and ext == "p8":
        write_side(rec, codes, ("p8", "lua"))
    rec.eval((text, ext), nontrivial=any(ord(c) > 127 for c in text))
    rec.sample(text[:60])


def texts(rng, rec):
    """p8 -> format -> p8 keeps every character"""
    codes = [rng.choice(OK + [10, 32]) for _ in range(rng.choice([2, 20, 200, 2000]))]
    if not valid(codes):
        return
    fmts = rng.sample(["p8", "lua", "clip", "url", "rom", "tiny-rom", "png", "js"][:7], 3)
    with Scratch() as s:
        cur = s.write("in.p8", HEAD % 43 + "__lua__\n" + to_uni(codes) + "\n")
        name = "in.p8"
        for i, f in enumerate(fmts):
            nm = f"x{i}.{'tiny_rom' if f == 'tiny-rom' else f}"
            fmt = f.replace("-", "_")
            prev = name.rsplit(".", 1)[1]
            r = cli([s.path(name), s.path(nm), "--input-format", prev, "--format", fmt])
            if r.rc != 0 and not r.crashed and ("url" in fmts):
                rec.skip("too big for url")
                return
            if fail(rec, r, s, nm, f"conversion to {fmt} failed", codes=codes):
                return
            name = nm
            rec.event("conv_" + fmt)
        r = cli([s.path(name), s.path("end.p8"), "--input-format", name.rsplit(".", 1)[1]])
        if fail(rec, r, s, "end.p8", "conversion to p8 failed", codes=codes):
            return
        t = s.read("end.p8").decode("utf8")
        body = t.split("__lua__\n", 1)[1] if "__lua__\n" in t else ""
        m = re.search(r"(?m)^__(gfx|gff|map|sfx|music|label|meta:\w+)__$", body)
        if m:
            body = body[:m.start()]
        if body.rstrip("\n") != to_uni(codes).rstrip("\n"):
            rec.violation("charset", f"text changed through {' > '.join(fmts)}", codes=codes, got=body[:500])
    rec.eval((bytes(codes), tuple(fmts)), nontrivial=max(codes) > 127)


FAMILIES = [Family("pairs", pairs, len(OK), len(OK), need=["pairs", "read_p8", "read_lua", "written_p8", "written_lua"], exhaustive=True),
            Family("mixed", mixed, 4000, 40000, need=["read_p8", "read_lua"]),
            Family("texts", texts, 2500, 20000, need=["conv_clip", "conv_lua", "conv_png"])]

if __name__ == "__main__":
    sys.exit(core.main(sys.modules[__name__]))
