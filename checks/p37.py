"""C37: oversized carts are refused, never truncated."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, carts, exports, p64
from vlib.core import Family
from vlib.tool import cli, Scratch, p8_to_uni

PROP = "C37"
LEVEL = "exploration"
LEVEL_NOTE = "sizes are placed right at, next to and far beyond each limit; the code's texture is sampled"
TECHNIQUE = "runtime monitoring: runs of the real tool on code around each limit; written files are decoded independently and must hold the complete code, refusals must leave no file behind"
RULE = "a case counts as distinct when the (code, format, options) triple is new and its size is within 4 of a limit or beyond it"
ASSUMPTIONS = ["limits: 65535 chars, 15616 bytes of compressed code, 2040 chars of an education-edition url (whose first four characters aren't counted), 262144 bytes of a picotron png cart",
               "how well code compresses is up to the tool, so the compressed size is what --count reports (C20 and C30 check that number)"]
CASE_CPU_LIMIT = 60
SLOW_OK = True
CHARS, COMP, URL, P64 = 65535, 15616, 2040, 0x40000


def text(rng, n, kind):
    """n characters that don't shrink below half much (kind: alphabet)"""
    alpha = {"dense": [c for c in range(16, 256) if c not in (13,)], "mid": list(range(48, 80)), "low": list(range(97, 105))}[kind]
    s = "--" + "".join(chr(rng.choice(alpha)) for _ in range(n))
    return s[:n]


def repeat(rng, n):
    """n characters that shrink well"""
    words = ["--x" + "".join(chr(rng.randrange(33, 127)) for _ in range(rng.choice([24, 39, 59]))) + "\n" for _ in range(rng.choice([40, 120]))]
    s = "".join(rng.choice(words) for _ in range(n // 25))[:n]
    return s[:-1] + "x" if s.endswith("\n") else s


def opts_of(rng, slow=0.1):
    o = []
    if rng.random() > slow:
        o.append("--fast-compression")
    if rng.random() < 0.2:
        o.append("--old-compression")
    if rng.random() < 0.5:
        o.append("--force-compression")
    return o


READ = {"rom": carts.read_rom, "tiny-rom": carts.read_tiny, "png": carts.read_png, "url": lambda d: carts.read_url(d.decode()), "clip": lambda d: carts.read_clip(d.decode())}


def reported(s, src, opts):
    r = cli([src, "--count", "--parsable-count"] + [o for o in opts if o != "--force-compression"])
    m = re.search(r"^count:None:compressed:(\d+):(\d+)$", r.out, re.M)
    return int(m.group(1)) if m else None


def decide(rec, s, code, fmt, opts, verdict, what, rng):
    """verdict: True/False/None(unclear) for 'fits'"""
    src = s.write("in.lua", p8_to_uni(code) + "\n")
    out = s.path("out." + {"tiny-rom": "rom"}.get(fmt, fmt))
    old = b"previous contents" if rng.random() < 0.5 else None
    if old:
        s.write(os.path.basename(out), old)
    elif os.path.exists(out):
        os.remove(out)
    args = [src, out, "--format", fmt] + opts + (rng.choice([[], [], ["--count"]]) if "--force-compression" in opts or fmt in ("tiny-rom", "url") else [])   # (--count forces compression)
    r = cli(args)
    if r.crashed:
        rec.violation("tool-crash", f"{what} to {fmt} crashed", args=args, **r.brief())
        return
    now = s.read(os.path.basename(out)) if os.path.exists(out) else None
    if r.rc:
        if now != old:
            rec.violation("partial", f"{what} to {fmt} was refused, but the output file was written", args=args, n=len(code), **r.brief())
            return
        if not r.err.strip():
            rec.violation("silent", f"{what} to {fmt} failed without a message", args=args, n=len(code), **r.brief())
            return
        if verdict is True:
            rec.violation("refused", f"{what} to {fmt} {opts} was refused though it fits", args=args, n=len(code), **r.brief())
            return
        rec.event("refused " + fmt)
    else:
        if verdict is False:
            rec.violation("accepted", f"{what} to {fmt} {opts} was written though it's over the limit", args=args, n=len(code), **r.brief())
            return
        try:
            if now is None or now == old:
                raise carts.BadFormat("nothing was written")
            got = READ[fmt](now).code
        except (carts.BadFormat, IndexError, ValueError) as e:
            rec.violation("undecodable", f"{what} to {fmt} {opts}: the written cart can't be decoded: {e}", args=args, n=len(code))
            return
        if got != code:
            rec.violation("cut", f"{what} to {fmt} {opts}: the written cart holds {len(got)} other characters instead of {len(code)}", args=args)
            return
        if fmt == "url" and len(now) - 4 > URL:
            rec.violation("accepted", f"an url of {len(now)} characters was written", args=args)
            return
        rec.event("accepted " + fmt)
    rec.eval((hash(code), fmt, tuple(opts)))
    rec.sample([what, fmt, opts, r.rc])


def chars(rng, rec):
    """around the number of characters"""
    n = CHARS + rng.choice([-2, -1, 0, 0, 1, 1, 2, 3, 100, 4500, 65536, 65535, 70000])
    code = repeat(rng, n)
    with Scratch() as s:
        if rng.random() < 0.2:
            # text formats keep everything
            out = s.path("o." + rng.choice(["lua", "p8"]))
            r = cli([s.write("in.lua", p8_to_uni(code) + "\n"), out, "--count", "--no-count-compress"])
            m = re.search(r"^chars: (\d+) (\d+(?:\.\d+)?)%$", r.out, re.M)
            if r.rc or not m or int(m.group(1)) != n or (float(m.group(2)) > 100) and n <= CHARS or n > CHARS * 1.001 and float(m.group(2)) <= 100:
                rec.violation("count", f"{n} characters: reported {m and m.group()}", n=n, **r.brief())
                return
            d = s.read(os.path.basename(out)).decode()
            if p8_to_uni(code) not in d:
                rec.violation("cut", f"{n} characters: the text file doesn't hold the code", n=n)
                return
            rec.event("text formats")
            rec.eval((n, code[:8]))
            return
        fmt = rng.choice(["rom", "png", "tiny-rom", "clip", "url", "rom"])
        opts = ["--fast-compression"] + rng.choice([[], ["--force-compression"], ["--old-compression"]])
        verdict = n <= CHARS
        if verdict:
            c = reported(s, s.write("in.lua", p8_to_uni(code) + "\n"), opts)
            verdict = None if c is None else c <= COMP and (fmt != "url" or None)
        rec.event("chars beyond" if n > CHARS else "chars within")
        decide(rec, s, code, fmt, opts, verdict, f"{n} characters", rng)


def compressed(rng, rec):
    """around the compressed size"""
    kind = rng.choice(["dense", "dense", "mid", "mid", "low"])
    opts = opts_of(rng)
    with Scratch() as s:
        pool = text(rng, 45000, kind)
        put = lambda n: s.write("in.lua", p8_to_uni(pool[:n]) + "\n")
        a, b = 8000, 45000
        n, best = {"dense": 15400, "mid": 22000, "low": 32000}[kind], None
        for _ in range(9):
            c = reported(s, put(n), opts)
            if c is None:
                rec.violation("count", "the compressed size isn't reported", opts=opts)
                return
            if c <= COMP:
                a = max(a, n)
            else:
                b = min(b, n)
            if abs(c - COMP) <= 3 or b - a <= 1:
                break
            n2 = int(n + (COMP + rng.choice([0, 1]) - c) * n / c)
            if n2 == n:
                n2 = n + (1 if c <= COMP else -1)
            n = min(max(n2, a + 1), b - 1)
        for n in sorted({n, n + 1, n - 1} if rng.random() < 0.3 else {n + rng.choice([0, 1, 2, -1])}):
            code = pool[:n]
            if code.endswith("\n"):
                code = code[:-1] + "x"
            c = reported(s, s.write("in.lua", p8_to_uni(code) + "\n"), opts)
            fmt = rng.choice(["rom", "png", "tiny-rom", "clip"])
            raw = n < COMP and "--force-compression" not in opts and fmt in ("rom", "png", "clip")
            if raw and code.startswith((":c:\0", "\0pxa")):
                continue
            rec.event("compressed within" if c <= COMP else "compressed beyond")
            if abs(c - COMP) <= 1:
                rec.event("compressed at the limit")
            decide(rec, s, code, fmt, opts, raw or c <= COMP, f"{n} characters compressing to {c} bytes", rng)


def raw(rng, rec):
    """incompressible code around the size of the code area"""
    n = COMP + rng.choice([-3, -2, -1, 0, 0, 1, 2, 10])
    code = text(rng, n, "dense")
    if code.endswith("\n"):
        code = code[:-1] + "x"
    with Scratch() as s:
        fmt = rng.choice(["rom", "png", "clip", "tiny-rom"])
        opts = ["--fast-compression"]
        fits = n < COMP if fmt != "tiny-rom" else None
        c = reported(s, s.write("in.lua", p8_to_uni(code) + "\n"), opts)
        if fits is not True:
            fits = c <= COMP
        rec.event("raw within" if fits else "raw beyond")
        decide(rec, s, code, fmt, opts, fits, f"{n} incompressible characters", rng)


def url(rng, rec):
    """around the size of an url"""
    n = rng.randrange(1400, 1560) if rng.random() < 0.8 else rng.randrange(1, 4000)
    code = text(rng, n, "dense")
    if code.endswith("\n"):
        code = code[:-1] + "x"
    with Scratch() as s:
        opts = opts_of(rng)
        opts = [o for o in opts if o != "--force-compression"]
        # the smaller of plain and compressed code, in base 64 (with padding)
        c = reported(s, s.write("in.lua", p8_to_uni(code) + "\n"), opts)
        for d in range(60):
            # (move to the limit)
            size = len("https://www.pico-8-edu.com/?c=") + (min(c, len(code)) + 2) // 3 * 4
            if rng.random() < 0.15 or abs(size - 4 - URL) <= 4 or n > 2000:
                break
            code = code[:-1] if size - 4 > URL else code + "y"
            c = reported(s, s.write("in.lua", p8_to_uni(code) + "\n"), opts)
        rec.event("url within" if size - 4 <= URL else "url beyond")
        if abs(size - 4 - URL) <= 4:
            rec.event("url at the limit")
        decide(rec, s, code, "url", opts, size - 4 <= URL, f"an url of {size} characters", rng)


def export(rng, rec):
    """an oversized cart never gets into an export"""
    big = rng.random() < 0.7
    code = (text(rng, rng.choice([40000, 16500]), "dense") if rng.random() < 0.5 else repeat(rng, 66000)) if big else text(rng, 15000, "mid")
    if code.endswith("\n"):
        code = code[:-1] + "x"
    with Scratch() as s:
        pairs = []
        for n in ["main.p8", "a.p8", "b.p8"][:rng.choice([1, 2, 3])]:
            d = bytearray(0x8000)
            d[0x4300:0x4304] = b"x=12"
            pairs.append((n, bytes(d)))
        if rng.random() < 0.5:
            name, data = "e.js", exports.js_write(rng, pairs, "var x=1;\n").encode()
            load = lambda d: exports.js_read(d.decode())[0]
        else:
            name, data = "e.pod", exports.pod_write([exports.pod_file(n, d) for n, d in pairs])
            load = lambda d: [(n, c) for _, k, n, c in exports.pod_read(d)[1]]
        exp = s.write(name, data)
        src = s.write("in.p8", "pico-8 cartridge // http://www.pico-8.com\nversion 42\n__lua__\n" + p8_to_uni(code) + "\n")
        if rng.random() < 0.5:
            args, idx = [src, exp, "--replace-cart", "main.p8", "--fast-compression"], 0
        else:
            args, idx = [src, exp, "--insert-cart", "new.p8", "--fast-compression"], len(pairs)
        r = cli(args)
        now = s.read(name)
        if r.crashed:
            rec.violation("tool-crash", "editing an export crashed", args=args, **r.brief())
            return
        if big:
            if not r.rc or now != data:
                rec.violation("export", f"{args[2]} of an oversized cart: exit code {r.rc}, export {'un' if now == data else ''}changed", args=args, n=len(code), **r.brief())
                return
            rec.event("export refused")
        else:
            try:
                c = None if r.rc else carts.read_rom(load(now)[idx][1])
                if not c or c.code != code:
                    raise carts.BadFormat("other code")
            except (carts.BadFormat, IndexError, ValueError) as e:
                rec.violation("export", f"{args[2]} of a fitting cart: {e}", args=args, **r.brief())
                return
            rec.event("export accepted")
        rec.eval((hash(code), tuple(args[2:4])))


def picotron(rng, rec):
    """picotron png carts"""
    want = P64 + rng.choice([-3, -2, -1, 0, 1, 2, 3, -400, 400, 3000, 40000])
    buf = rng.randbytes(want)
    with Scratch() as s:
        mk = lambda n: s.write("in.p64", p64.write_p64({"main.lua": b"x=1\n", "d.bin": buf[:n]}, rng))
        over = ["--fast-compression", "--keep-pod-compression"]
        n = want
        # (find out how much the rest takes)
        r = cli([mk(1000), s.path("o.p64.rom")] + over, lang="picotron")
        base = len(s.read("o.p64.rom")) - 1000
        n = want - base - (want // 255)
        n = max(n, 0)
        r = cli([mk(n), s.path("o.p64.rom")] + over, lang="picotron")
        size = len(s.read("o.p64.rom"))
        n += want - size
        r = cli([mk(n), s.path("o.p64.rom")] + over, lang="picotron")
        size = len(s.read("o.p64.rom"))
        if r.rc or p64.read_rom(s.read("o.p64.rom"))[0].get("d.bin") != buf[:n]:
            rec.violation("rom", "roms have no limit, but the file didn't make it into the rom", n=n, **r.brief())
            return
        old = rng.random() < 0.5
        if old:
            s.write("o.p64.png", b"old")
        args = [s.path("in.p64"), s.path("o.p64.png")] + over
        r = cli(args, lang="picotron")
        if r.crashed:
            rec.violation("tool-crash", "writing a picotron png crashed", args=args, **r.brief())
            return
        if (r.rc == 0) != (size <= P64):
            rec.violation("accepted" if r.rc == 0 else "refused", f"a picotron png with {size} bytes: exit code {r.rc}", args=args, **r.brief())
            return
        if r.rc:
            if s.exists("o.p64.png") != old or old and s.read("o.p64.png") != b"old" or not r.err:
                rec.violation("partial", "a refused picotron png was written", args=args)
                return
            rec.event("picotron refused")
        else:
            if p64.read_png(s.read("o.p64.png"))[0].get("d.bin") != buf[:n]:
                rec.violation("cut", "the picotron png doesn't hold the file", args=args)
                return
            rec.event("picotron accepted")
        if abs(size - P64) <= 3:
            rec.event("picotron at the limit")
        rec.eval((n, size))
        rec.sample([size, r.rc])


FAMILIES = [Family("chars", chars, 300, 6000, need=["chars beyond", "chars within", "accepted rom", "refused rom"]),
            Family("compressed", compressed, 64, 2500, need=["compressed within", "compressed beyond", "compressed at the limit"]),
            Family("raw", raw, 48, 1500, need=["raw within", "raw beyond"]),
            Family("url", url, 300, 5000, need=["url within", "url beyond", "url at the limit"]),
            Family("export", export, 32, 1000, need=["export refused", "export accepted"]),
            Family("picotron", picotron, 16, 400, need=["picotron refused", "picotron accepted"])]

if __name__ == "__main__":
    sys.exit(core.main(sys.modules[__name__]))
