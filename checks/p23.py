"""C23: corrupted carts with an integrity hash are noticed."""
import hashlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, carts, mini
from vlib.core import Family
from vlib.tool import cli, Scratch
import p21, p25

PROP = "C23"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: faults are injected into the stored bytes of cart images; the exit code, message and outputs of the real reader are observed"
RULE = "a case counts as distinct when the (cart, altered bytes, format, command) combination is new"
ASSUMPTIONS = ["a hash of zeros means that the cart has none, like in carts of old PICO-8 versions"]

_pool = {}


def base_cart(rng):
    """-> (the 0x8020 bytes written by the tool, template rows)"""
    k = rng.randrange(12)
    if k not in _pool:
        import random
        r2 = random.Random(9000 + k)
        m = p21.Model()
        m.code = [lambda: "y=2", lambda: "x=1", lambda: "a=[==[" + carts.rand_text(r2, 300, "words").replace("]", "") + "]==]", lambda: "a=[==[" + carts.rand_text(r2, 14000, "words").replace("]", "") + "]==]", lambda: "print('hi')\n" * 400, lambda: "a=[=[" + p21.clean_code(carts.rand_text(r2, 3000)).replace("]", "") + "]=]"][k % 6]()
        m.rom = carts.rand_rom(r2) if k % 3 else carts.default_rom()
        with Scratch() as s:
            r = cli([s.write("i.p8", carts.write_p8(carts.Cart(m.code, m.rom, version=[43, 8, 29][k % 3]), r2)), s.path("o.png"), "--force-compression"][:2 + k % 2])
            if r.rc != 0:
                raise RuntimeError("cannot create cart: " + str(r.brief()))
            data = open(s.path("o.png"), "rb").read()
        rows = carts.png_decode(data)[2]
        _pool[k] = (bytes(carts.image_bytes(rows)[:0x8020]), rows)
    return _pool[k]


def put(rng, s, fmt, data, rows):
    if fmt == "rom":
        return s.write("c.rom", data)
    full = data + bytes(160 * 205 - len(data))
    png = carts.png_encode(carts.image_with_bytes(rows, full))
    if fmt == "png":
        return s.write("c.png", png)
    return s.write("c.clip", "[cart]" + png.hex() + "[/cart]")


def commands(rng, s, inp):
    """(arguments, output or None) of a command that reads the cart"""
    k = rng.randrange(9)
    o = s.path("o." + rng.choice(["p8", "lua", "rom", "png", "clip"]))
    if k < 4:
        return [inp, o], o
    if k == 4:
        return [inp, "--count"], None
    if k == 5:
        return [inp, "--lint", "--no-lint-fail"], None
    if k == 6:
        return [s.write("m.p8", mini.p8_text("a=1")), o, "--merge", inp, rng.choice(["gfx", "map,lua", "sfx,music", "lua"])], o
    if k == 7:
        kind = rng.choice([p25.Js, p25.Pod])(rng)
        e = s.write("e" + kind.ext, kind.build(rng, [("main.p8", p25.rom_of(p25.rand_cart(rng)))]))
        return [inp, e, "--insert-cart", "z.p8"], None
    return [inp, o, "--minify"], o


def intact(rng, rec):
    data, rows = base_cart(rng)
    if hashlib.sha1(data[:0x8000]).digest() != data[0x8006:0x801a]:
        rec.violation("bad-hash", "a written cart has a wrong hash", data=data.hex()[:200])
        return
    b = bytearray(data)
    what = rng.choice(["same", "none", "trailer", "image", "rehashed", "bare", "empty-hash"])
    if what == "none":
        b[0x8006:0x801a] = bytes(20)
        for _ in range(rng.choice([1, 5, 100])):
            b[rng.choice([rng.randrange(0x4300), 0, 0x42ff])] ^= rng.randrange(1, 256)
    elif what == "trailer":
        # versions aren't hashed
        for _ in range(rng.choice([1, 3])):
            i = rng.choice([0x8000, 0x8001, 0x8002, 0x8003, 0x8005, rng.randrange(0x801a, 0x8020)])
            b[i] = rng.randrange(256)
        if b[0x8000] < 1:
            b[0x8000] = 1
    elif what == "rehashed":
        for _ in range(rng.choice([1, 50])):
            b[rng.randrange(0x4300)] ^= rng.randrange(1, 256)
        b[0x8006:0x801a] = hashlib.sha1(b[:0x8000]).digest()
    elif what == "bare":
        b = b[:0x8000]
        for _ in range(rng.choice([0, 1, 50])):
            b[rng.randrange(0x4300)] ^= rng.randrange(1, 256)
    elif what == "empty-hash":
        b[0x8006:0x801a] = bytes(20)
    fmt = "rom" if what == "bare" else rng.choice(["rom", "rom", "png", "clip"])
    if what == "image":
        rows = [[tuple(v ^ (rng.randrange(64) << 2) if rng.random() < 0.05 else v for v in px) for px in r] for r in rows]
    with Scratch() as s:
        inp = put(rng, s, fmt, bytes(b), rows)
        args, out = commands(rng, s, inp)
        rec.eval((bytes(b), fmt, tuple(os.path.basename(a) for a in args)), nontrivial=what != "same")
        r = cli(args)
        rec.event("intact_" + what)
        if r.rc != 0 or r.crashed:
            rec.violation("false-report" if "corrupted" in r.err else "refused", f"an intact cart ({what}, {fmt}) isn't read by {' '.join(map(os.path.basename, args))}", **r.brief())
            return
        if out and not s.exists(os.path.basename(out)):
            rec.violation("no-output", f"no output for an intact cart ({what}, {fmt})", **r.brief())


EDGES = [0, 1, 0xfff, 0x1000, 0x2fff, 0x3000, 0x30ff, 0x3100, 0x31ff, 0x3200, 0x42fe, 0x42ff, 0x4300, 0x4301, 0x4302, 0x4303, 0x4304, 0x4305, 0x4306, 0x4307, 0x4308, 0x4309, 0x5000, 0x7ffd, 0x7ffe, 0x7fff]


def corrupt(rng, rec, fmts=("rom",)):
    data, rows = base_cart(rng)
    b = bytearray(data)
    k = rng.random()
    def pos():
        q = rng.random()
        return rng.choice(EDGES) if q < 0.25 else rng.randrange(0x4300, 0x4400) if q < 0.35 else rng.randrange(0x8000)
    if k < 0.35:
        i = pos()
        b[i] ^= 1 << rng.randrange(8)
        what = "bit"
    elif k < 0.55:
        b[pos()] ^= rng.randrange(1, 256)
        what = "byte"
    elif k < 0.65:
        for _ in range(rng.choice([2, 3, 30, 3000])):
            b[pos()] = rng.randrange(256)
        what = "bytes"
    elif k < 0.72:
        i, j = pos(), pos()
        b[i], b[j] = b[j], b[i]
        what = "swap"
    elif k < 0.79:
        i = pos()
        n = rng.choice([1, 2, 16, 0x100, 0x1000])
        b[i:min(0x8000, i + n)] = rng.choice([b"\0", b"\xff"]) * (min(0x8000, i + n) - i)
        what = "run"
    elif k < 0.86:
        # lost or inserted byte
        i = pos()
        if rng.random() < 0.5:
            b = b[:i] + b[i + 1:0x8000] + bytes([rng.randrange(256)]) + b[0x8000:]
        else:
            b = b[:i] + bytes([rng.randrange(256)]) + b[i:0x7fff] + b[0x8000:]
        what = "shift"
    elif k < 0.95:
        i = rng.randrange(0x8006, 0x801a)
        b[i] ^= rng.choice([rng.randrange(1, 256), 1 << rng.randrange(8)])
        what = "hash"
    else:
        # the hash of something else
        i = pos()
        other = bytearray(data)
        other[i] ^= 1
        b[0x8006:0x801a] = rng.choice([hashlib.sha1(other[:0x8000]).digest(), hashlib.sha1(data[:0x4300]).digest(), hashlib.sha1(data[:0x8006]).digest(), hashlib.md5(data[:0x8000]).digest() + b"\0\0\0\0", hashlib.sha1(b"").digest(),
                                       data[0x8006:0x8010] + bytes(10), bytes(10) + data[0x8010:0x801a], bytes(19) + data[0x8019:0x801a], data[0x8006:0x8007] + bytes(19)])
        what = "other-hash"
    b = bytes(b)
    if b[0x8006:0x801a] == bytes(20) or hashlib.sha1(b[:0x8000]).digest() == b[0x8006:0x801a]:
        rec.skip("nothing changed")
        return
    fmt = rng.choice(fmts)
    with Scratch() as s:
        inp = put(rng, s, fmt, b, rows)
        args, out = commands(rng, s, inp)
        rec.eval((b, fmt, tuple(os.path.basename(a) for a in args)))
        r = cli(args)
        rec.event("corrupt_" + what)
        desc = f"({what}, {fmt}) by {' '.join(map(os.path.basename, args))}"
        if r.crashed:
            rec.violation("crash", f"reading a corrupted cart crashes {desc}: {r.exc[-150:]}", diff=[i for i in range(0x8020) if b[i] != data[i]][:20])
        elif r.rc == 0:
            rec.violation("unnoticed", f"a corrupted cart is accepted {desc}", diff=[i for i in range(0x8020) if b[i] != data[i]][:20])
        elif "corrupted" not in r.err:
            rec.violation("unreported", f"a corrupted cart isn't reported {desc}", **r.brief())
        elif out and s.exists(os.path.basename(out)):
            rec.violation("output-written", f"an output is written {desc}", **r.brief())


def corrupt_image(rng, rec):
    corrupt(rng, rec, ("png", "png", "clip"))


FAMILIES = [Family("intact", intact, 1000, 8000, need=["intact_same", "intact_none", "intact_trailer", "intact_image", "intact_rehashed", "intact_bare"]),
            Family("corrupt", corrupt, 14000, 200000, need=["corrupt_bit", "corrupt_byte", "corrupt_bytes", "corrupt_swap", "corrupt_run", "corrupt_shift", "corrupt_hash", "corrupt_other-hash"]),
            Family("corrupt_image", corrupt_image, 1800, 20000, need=["corrupt_bit", "corrupt_byte", "corrupt_hash"])]

if __name__ == "__main__":
    sys.exit(core.main(sys.modules[__name__]))
