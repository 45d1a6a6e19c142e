"""C20: code compression is lossless and honestly sized."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, carts, luagen
from vlib.core import Family
from vlib.tool import cli, Scratch, p8_to_uni

PROP = "C20"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: an independent decoder watches every compressed code area the real tool writes"
RULE = "a case counts as distinct when the (code text, settings) pair is new and the written area was compressed"
ASSUMPTIONS = ["the independent pxa/old decoders follow the published format"]

CASE_CPU_LIMIT = 12
SLOW_OK = True   # (compression of large texts is slow, not endless: no hang verdict here)
SETTINGS = [[], ["--fast-compression"], ["--old-compression"], ["--fast-compression", "--old-compression"]]


def no_section(code):
    # (lines that look like p8 section headers cannot be in a p8 file)
    return re.sub(r"(?m)^__", "_-", code).replace("\r", "x").replace("\0", "x")


def reported(out):
    m = re.search(r"^count:None:compressed:(\d+):(\d+)$", out, re.M)
    return (int(m.group(1)), int(m.group(2))) if m else None


def check_area(rec, code, args, data, kind_want, fmt, r):
    """data: the code area. decides one written file"""
    try:
        st = {}
        got, kind, used = carts.decode_code(data, st)
    except carts.BadFormat as ex:
        rec.violation("undecodable", f"written {fmt} code area cannot be decoded: {ex} under {args}", code=code[:2000], n=len(code))
        return False
    for k, n in st.items():
        rec.event("sym " + k, n)
    rec.event("area " + kind)
    rec.eval((code, tuple(args), fmt), nontrivial=kind != "raw")
    if got.decode("latin-1") != code:
        g = got.decode("latin-1")
        i = next((i for i, (a, b) in enumerate(zip(g, code)) if a != b), min(len(g), len(code)))
        rec.violation("lossy", f"{fmt} {' '.join(args)}: decompressed code differs at {i} ({len(g)} vs {len(code)} chars)",
                      code=code[:3000], around=[g[max(0, i - 20):i + 20], code[max(0, i - 20):i + 20]])
        return False
    if kind_want and kind != kind_want:
        rec.violation("wrong-kind", f"{fmt} {' '.join(args)}: code stored as {kind}, expected {kind_want}", n=len(code))
        return False
    if any(data[used:]):
        rec.violation("spill", f"{fmt} {' '.join(args)}: non-zero bytes after the {used} bytes of compressed code", n=len(code))
        return False
    rep = reported(r.out)
    if rep:
        rec.event("reported_sizes")
        if kind != "raw" and rep[0] != used:
            rec.violation("size", f"{fmt} {' '.join(args)}: reported compressed size {rep[0]}, {used} bytes were used", n=len(code))
            return False
        if used > rep[1]:
            rec.violation("size", f"{fmt}: {used} bytes used of {rep[1]}", n=len(code))
            return False
    return True


def one(rng, rec, code, fmts=("rom", "tiny-rom", "png")):
    with Scratch() as s:
        inp = s.write("in.lua", p8_to_uni(code) + "\n")
        base = list(rng.choice(SETTINGS))
        force = rng.random() < 0.75
        fmt = rng.choice(fmts)
        args = base + (["--force-compression"] if force and rng.random() < 0.5 else [])
        if force and "--force-compression" not in args or rng.random() < 0.3:
            args += ["--count", "--parsable-count", "--no-count-tokenize"]
            force = True
        out = s.path("o.bin")
        r = cli([inp, out, "-f", fmt] + args)
        if r.crashed:
            rec.violation("tool-crash", f"crash under {args}", code=code[:2000], **r.brief())
            return
        rep = reported(r.out)
        if r.rc != 0:
            if "too much compressed space" in r.err or "too many characters" in r.err:
                rec.event("refused_too_big")
                if len(code) < carts.CODE_SIZE // 4:
                    rec.violation("refused", f"{len(code)} chars refused as too big", **r.brief())
            else:
                rec.violation("refused", f"unexpected failure {r.err[:200]}", code=code[:2000], **r.brief())
            return
        data = s.read("o.bin")
        want = "old" if "--old-compression" in args else "pxa"
        if fmt == "rom":
            if len(data) != carts.CART_SIZE:
                rec.violation("spill", f"rom has {len(data)} bytes")
                return
            area = data[carts.ROM_SIZE:]
            if not force:
                want = want if len(code) >= carts.CODE_SIZE else "raw"
            if data[:carts.ROM_SIZE] != carts.default_rom():
                rec.violation("spill", "other rom data changed by the compressed code")
                return
        elif fmt == "png":
            _, _, rows = carts.png_decode(data)
            b = carts.image_bytes(rows)
            area = b[carts.ROM_SIZE:carts.CART_SIZE]
            if not force:
                want = want if len(code) >= carts.CODE_SIZE else "raw"
            if b[:carts.ROM_SIZE] != carts.default_rom() or b[carts.CART_SIZE] == 0:
                rec.violation("spill", "other cart data changed by the compressed code")
                return
        else:
            area = data
            want = None
            if len(data) > max(len(code), 0):
                rec.violation("tiny-size", f"tiny rom has {len(data)} bytes for {len(code)} chars")
                return
        if not check_area(rec, code, args, area, want, fmt, r):
            return
        # read it back with the tool itself, recompressing in another way and keeping compression
        if rng.random() < 0.6:
            keep = rng.random() < 0.5
            args2 = ["--keep-compression"] if keep else list(rng.choice(SETTINGS)) + ["--force-compression"]
            fmt2 = rng.choice(["rom", "tiny-rom"]) if keep else "rom"
            r2 = cli([out, s.path("o2.rom"), "-F", fmt, "-f", fmt2] + args2)
            if r2.rc != 0:
                if "too much compressed space" in r2.err:
                    rec.event("refused_too_big")
                    return
                rec.violation("reread", f"cannot re-read own {fmt} output ({args}) with {args2}: {r2.err[:200]}", code=code[:2000], **r2.brief())
                return
            area2 = s.read("o2.rom")[carts.ROM_SIZE if fmt2 == "rom" else 0:]
            if keep:
                rec.event("kept")
                rec.event("kept " + fmt2)
                n = len(area)
                if area2[:n].rstrip(b"\0") != area.rstrip(b"\0"):
                    rec.violation("keep", f"--keep-compression changed the compressed bytes ({fmt} {args})", code=code[:2000])
                    return
            if not check_area(rec, code, args2, area2, None if keep else ("old" if "--old-compression" in args2 else "pxa"), fmt2, r2):
                return


def far_repeats(rng, n):
    """a short sequence that occurs hundreds of times (each time differently continued), then again much further on"""
    a = "".join(chr(rng.randrange(97, 123)) for _ in range(rng.choice([3, 3, 3, 4, 5])))
    b = [chr(c) for c in range(33, 127)]
    one_more = lambda: a + rng.choice(b) + rng.choice(b)
    out = "--" + "".join(one_more() for _ in range(rng.choice([210, 260, 500])))
    out += "".join(rng.choice(b[:16]) for _ in range(rng.choice([3000, 3200, 4000, 33000 if n > 33000 else 3500])))
    while len(out) < n:
        out += one_more() + "".join(rng.choice(b) for _ in range(rng.choice([0, 3, 100, 3200])))
    return out[:max(n, 5000)].replace("]]", "}}")


def texts(rng, rec):
    n = rng.choice([0, 1, 2, 3, 4, 5, 8, 20, 60, 200, 700, 2000, rng.randrange(1, 5000)])
    code = no_section(carts.rand_text(rng, n))
    one(rng, rec, code)


def programs(rng, rec):
    code = no_section(luagen.program(rng, size=rng.choice([20, 60])))
    one(rng, rec, code)


def big(rng, rec):
    """around the size at which compression becomes mandatory, far offsets, near-full code areas"""
    n = rng.choice([15615, 15616, 15617, 15614, 15616, 20000, 33000, 33000, 40000])
    kind = rng.choice(["words", "lua", "mixed", "repeat", "blocks", "bytes", "far", "far"])
    if kind == "far":
        n = rng.choice([5000, 6000, 9000, 36000])
    code = no_section(far_repeats(rng, n) if kind == "far" else carts.rand_text(rng, n, kind))
    if rng.random() < 0.5:
        # matches at the far end of what an offset can express
        far = rng.choice([32766, 32767, 32768, 32769, 1024, 1025, 1023, 32, 33, 31, 3135, 3136, 3134])
        s = "".join(chr(rng.choice([200, 201, 202, 203]) + rng.randrange(40)) for _ in range(12))
        code = s + code[:max(0, far - len(s))] + s + code[far:]
        code = code[:65535]
    one(rng, rec, code, fmts=("rom",))


FAMILIES = [Family("texts", texts, 1100, 60000, need=["area pxa", "area old", "sym block", "reported_sizes", "kept"]),
            Family("programs", programs, 120, 6000, need=["area pxa"]),
            Family("big", big, 40, 1600, need=["area pxa", "area old", "sym match15"])]

if __name__ == "__main__":
    sys.exit(core.main(sys.modules[__name__]))
