"""C25: exports keep and edit exactly the addressed carts."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, carts, exports
from vlib.core import Family
from vlib.tool import cli, Scratch, uni_to_p8
import p21

PROP = "C25"
LEVEL = "exploration"
LEVEL_NOTE = "histories of up to 6 operations over exports of up to 4 carts are sampled; the exports are built by our own writers since PICO-8's player files aren't available"
TECHNIQUE = "runtime monitoring: after every operation of the real tool the export file is decoded by an independent reader and compared, cart by cart and byte by byte elsewhere, with a model"
RULE = "a case counts as distinct when the (export, operations) tuple is new and at least one operation was carried out"
ASSUMPTIONS = ["exports hold 0x8000-byte roms, the main cart first", "pod exports: only carts have names", "the layout of PICO-8's own js and pod files, as far as the tool's reader documents it",
               "carts replaced in an export are compared by their decoded contents, since their compression may differ"]
NAMES = ["main.p8", "a.p8", "b.p8", "game.p8", "lvl 2.p8", "x.p8.png", "sub-1.p8", "data", "UPPER.P8", "a.p8.p8", "é♥.p8", "a,b.p8", "it's.p8", "c(1).p8", "d[2].p8", "x" * 59 + ".p8", "w e i r d # % & $ { } = + ; ,.p8", "../evil.p8", "a:b\\c.p8"]


def rand_cart(rng, big=False):
    m = p21.Model()
    m.code = p21.rand_code(rng, True) if rng.random() < 0.6 else f"x={rng.randrange(9999)}\n"
    if big:
        # (not compressible into less than half: makes the tool compress for real)
        m.code += "-- " + "".join(chr(rng.choice([c for c in range(33, 127)])) for _ in range(rng.choice([100, 3000]))) + "\n"
    m.rom = carts.rand_rom(rng)
    return m


def rom_of(m):
    code = m.code.encode("latin-1")
    d = bytearray(0x8000)
    d[:0x4300] = m.rom
    d[0x4300:0x4300 + len(code)] = code
    return bytes(d)


def decode(data):
    c = carts.read_rom(data)
    return p21.clean_code(c.code) , c.rom


class Js:
    ext = ".js"

    def __init__(m, rng):
        m.tail = rng.choice(["", "var x=[1,2,3];\n", "/* player */ function f(){var _cartnames=[];return '}]';}\n// é\n", "Module={};\nvar a = [[1],[2]];\n"])

    def build(m, rng, pairs):
        text = exports.js_write(rng, pairs, m.tail)
        return text.encode("utf8")

    def load(m, data):
        return exports.js_read(data.decode("utf8"))


class Pod:
    ext = ".pod"

    def __init__(m, rng):
        m.extra = rng.random() < 0.8

    def build(m, rng, pairs):
        ents = []
        if m.extra:
            ents.append(exports.pod_file("", b"pico-8 cartridge\n"))
            d = bytes(rng.randrange(256) for _ in range(48))
            sub = exports.pod_write([exports.pod_bmp(8, 6, d, compress=exports.lz4_encode(d)), exports.pod_pal(bytes(768))], b"gfx")
            ents.append(exports.pod_file("", sub))
            ents.append(exports.pod_file("", exports.pod_write([])))
        for n, d in pairs:
            z = rng.random() < 0.15
            ents.append(exports.pod_file(n, d, exports.lz4_encode(d, rng) if z else None))
        return exports.pod_write(ents, rng.choice([b"", b"name"]))

    def load(m, data):
        head, ents = exports.pod_read(data)
        if any(k not in (b"CFIL", b"cFIL") for _, k, n, c in ents if n):
            raise carts.BadFormat("cart entry of a wrong kind")
        return [(n, c) for _, k, n, c in ents if n], (head, tuple(raw for raw, k, n, c in ents if not n))


def put_cart(rng, s, m, name):
    """-> path of a file (of some format) holding the cart"""
    fmt = rng.choice(["p8", "p8", "rom", "png"])
    mm = p21.Model()
    mm.code, mm.rom, mm.version = m.code, m.rom, 43
    if fmt == "png":
        mm.parts, mm.platform = (0, 2, 6, 2), "w"
    path = p21.first_file(rng, s, mm, fmt)
    new = s.path(name)
    os.replace(path, new)
    return new, fmt


def check_file(rec, kind, s, name, model, rest, what, args):
    """the export holds exactly the carts of the model; model: [name, bytes or decoded]"""
    try:
        got, gotrest = kind.load(s.read(name))
    except carts.BadFormat as e:
        rec.violation("format", f"{what}: the export is malformed: {e}", args=args)
        return None
    if [n for n, _ in got] != [n for n, _ in model]:
        rec.violation("names", f"{what}: the export holds {[n for n, _ in got]} instead of {[n for n, _ in model]}", args=args)
        return None
    if gotrest != rest:
        rec.violation("surroundings", f"{what}: other parts of the file were changed", args=args, before=repr(rest)[:300], after=repr(gotrest)[:300])
        return None
    out = []
    for (n, want), (_, data) in zip(model, got):
        if isinstance(want, bytes):
            bad = data != want
        else:
            try:
                bad = decode(data) != want
            except carts.BadFormat as e:
                rec.violation("format", f"{what}: cart {n} can't be decoded: {e}", args=args)
                return None
        if bad:
            rec.violation("cart-contents", f"{what}: cart {n} isn't what it should be ({'untouched cart' if isinstance(want, bytes) else 'stored cart'})", args=args, names=[n for n, _ in got])
            return None
        out.append((n, data))
    return out


def history(rng, rec):
    kind = rng.choice([Js, Pod])(rng)
    kn = type(kind).__name__
    names = rng.sample(NAMES, rng.choice([1, 1, 2, 3, 4]))
    pairs = [(n, rom_of(rand_cart(rng))) for n in names]
    with Scratch() as s:
        f = "export" + kind.ext
        s.write(f, kind.build(rng, pairs))
        start, rest = kind.load(s.read(f))
        assert start == pairs
        path = s.path(f)
        key = []
        for step in range(rng.choice([1, 2, 4, 6])):
            op = rng.choice(["insert", "insert", "replace", "replace", "delete", "rename", "list", "dump", "read", "read", "convert", "bad"])
            have = [n for n, _ in pairs]
            new = rng.choice([n for n in NAMES if n not in have])
            before = s.read(f)
            key.append(op)
            what = f"{kn} export {have}, {op}"
            if not have and op in ("replace", "delete", "rename", "read", "convert"):
                continue
            if op in ("insert", "replace"):
                m = rand_cart(rng, rng.random() < 0.2)
                want = (p21.clean_code(m.code), m.rom)
                cf = new if op == "insert" and "/" not in new else "other.p8"
                cp, fmt = put_cart(rng, s, m, cf)
                args = [cp, path, "--input-format", fmt]
                model = list(pairs)
                if op == "insert":
                    r2 = rng.random()
                    if r2 < 0.3 and cf not in have:
                        args += ["--insert-cart"]
                        model.append((cf, want))
                    elif r2 < 0.6 or not have:
                        args += ["--insert-cart", new]
                        model.append((new, want))
                    else:
                        at = rng.choice(have)
                        args += ["--insert-cart", new, at]
                        model.insert(have.index(at), (new, want))
                else:
                    if rng.random() < 0.3:
                        args += ["--replace-cart"]
                        i = 0
                    else:
                        i = rng.randrange(len(have))
                        args += ["--replace-cart", have[i]]
                    model[i] = (have[i], want)
                if rng.random() < 0.2:
                    args.append(rng.choice(["--force-compression", "--old-compression", "--fast-compression"]))
            elif op == "delete":
                i = rng.randrange(len(have))
                args = [path, "--delete-cart", have[i]]
                model = pairs[:i] + pairs[i + 1:]
            elif op == "rename":
                i = rng.randrange(len(have))
                args = [path, "--rename-cart", have[i], new]
                model = pairs[:i] + [(new, pairs[i][1])] + pairs[i + 1:]
            elif op == "bad":
                # must be refused without touching the export
                cp, fmt = put_cart(rng, s, rand_cart(rng), "zz.p8")
                args = rng.choice([[path, "--delete-cart", new], [path, "--rename-cart", new, "q.p8"],
                                   [cp, path, "--input-format", fmt, "--replace-cart", new],
                                   [cp, path, "--input-format", fmt, "--insert-cart", "q.p8", new],
                                   [path, s.path("out.p8"), "--cart", new]]
                                  + ([[cp, path, "--input-format", fmt, "--insert-cart", rng.choice(have)]] if have else [])
                                  + ([[path, "--rename-cart", have[0], have[1]]] if len(have) > 1 else []))
                if rng.random() < 0.15:
                    n = rng.choice(["a`b.p8", "back`"]) if isinstance(kind, Js) else rng.choice(["", "x" * 64, "é" * 40, "x" * 100])
                    args = [path, "--rename-cart", have[0], n] if have and rng.random() < 0.5 else [cp, path, "--input-format", fmt, "--insert-cart", n]
                r = cli(args)
                if r.crashed or r.rc == 0 or s.exists("out.p8"):
                    rec.violation("not-refused", f"{what}: wasn't refused cleanly (exit code {r.rc})", args=args, **r.brief())
                    return
                if s.read(f) != before:
                    rec.violation("refused-but-changed", f"{what}: was refused but changed the export", args=args)
                    return
                rec.event("refused")
                continue
            elif op == "list":
                args = [path, "--list"]
                r = cli(args)
                if r.crashed or r.rc or r.out.split("\n") != have + [""]:
                    rec.violation("list", f"{what}: printed {r.out!r}", args=args, **r.brief())
                    return
                rec.event("list")
                continue
            elif op == "dump":
                fmt = rng.choice(["rom", "p8", None])
                d = s.path(f"dump{step}")
                args = [path, "--dump", d] + (["-f", fmt] if fmt else [])
                r = cli(args)
                if r.crashed or r.rc:
                    rec.violation("tool-crash" if r.crashed else "rejected", f"{what} failed", args=args, **r.brief())
                    return
                got = sorted(os.listdir(d))
                fix = {n: re.sub(r"[\\/:*?<>|]", "_", n) for n in have}
                if got != sorted(fix.values()):
                    rec.violation("dump-names", f"{what}: dumped {got}", args=args)
                    return
                for n, data in pairs:
                    fd = s.read(f"dump{step}/{fix[n]}")
                    if fmt == "rom":
                        ok = fd == data
                    else:
                        c = carts.read_p8(fd.decode("utf8"))
                        ok = (c.code, c.rom) == decode(data)
                    if not ok:
                        rec.violation("dump-contents", f"{what}: cart {n} was dumped wrongly", args=args)
                        return
                rec.event("dump " + str(fmt))
                continue
            elif op == "read":
                i = rng.randrange(len(have))
                to = rng.choice(["p8", "rom", "p8", "lua"])
                o = s.path(f"out{step}." + to)
                if i == 0 and rng.random() < 0.5:
                    args = [path, o]
                else:
                    args = [path, o, "--cart", have[i]]
                if to == "rom" and rng.random() < 0.5:
                    args.append("--keep-compression")
                r = cli(args)
                if r.crashed or r.rc:
                    rec.violation("tool-crash" if r.crashed else "rejected", f"{what} of {have[i]} failed", args=args, **r.brief())
                    return
                fd = s.read(f"out{step}." + to)
                want = decode(pairs[i][1])
                if to == "rom":
                    ok = fd == pairs[i][1] if "--keep-compression" in args else decode(fd) == want
                elif to == "p8":
                    c = carts.read_p8(fd.decode("utf8"))
                    ok = (c.code, c.rom) == want
                else:
                    ok = uni_to_p8(fd.decode("utf8")).rstrip("\n") == want[0].rstrip("\n")
                if not ok:
                    rec.violation("read", f"{what}: cart {have[i]} was read wrongly into {to}", args=args)
                    return
                if s.read(f) != before:
                    rec.violation("changed-by-reading", f"{what}: reading changed the export", args=args)
                    return
                rec.event("read " + to)
                continue
            else:
                # all carts of another export get placed in a new export: edits one via insertion of the main cart only
                i = rng.randrange(len(have))
                kind2 = (Pod if isinstance(kind, Js) else Js)(rng)
                f2 = f"second{step}" + kind2.ext
                first = ("first.p8", rom_of(rand_cart(rng)))
                s.write(f2, kind2.build(rng, [first]))
                _, rest2 = kind2.load(s.read(f2))
                sel = rng.random() < 0.6
                args = [path, s.path(f2)] + (["--cart", have[i]] if sel else []) + ["--insert-cart"] + (["t.p8"] if sel and rng.random() < 0.5 else [])
                r = cli(args)
                if r.crashed or r.rc:
                    rec.violation("tool-crash" if r.crashed else "rejected", f"{what} failed", args=args, **r.brief())
                    return
                take = [pairs[i]] if sel else pairs
                model = [first] + [("t.p8" if args[-1] == "t.p8" else n.split("/")[-1], decode(d)) for n, d in take]
                if check_file(rec, kind2, s, f2, model, rest2, what, args) is None:
                    return
                rec.event("moved between exports", len(take))
                continue
            r = cli(args)
            if r.crashed or r.rc:
                rec.violation("tool-crash" if r.crashed else "rejected", f"{what} failed", args=args, **r.brief())
                return
            pairs = check_file(rec, kind, s, f, model, rest, what, args)
            if pairs is None:
                return
            rec.event(f"{op} {kn}")
        rec.eval((kn, tuple(key), hash(tuple(pairs))))
        rec.sample([kn, names, key])


def create(rng, rec):
    """new exports, made out of a synthetic pico8.dat"""
    with Scratch() as s:
        d = bytes(rng.randrange(256) for _ in range(16 * 16))
        surf = lambda w, h: exports.pod_bmp(w, h, bytes(rng.randrange(256) for _ in range(w * h)))
        gfx = exports.pod_write([surf(8, 8), surf(8, 8), exports.pod_pal(bytes(768)), surf(4, 4), surf(16, 16), surf(8, 8), exports.pod_bmp(128, 128, bytes(65536), 32), surf(8, 4)])
        fnt = exports.pod_write([exports.pod_pal(bytes(range(256)) * 3), surf(8, 8)])
        tail = "// the player é\nvar Module={};\n"
        wtail = "// the wasm player\nfetch('pico8_wasm.wasm')\n"
        html = exports.pod_write([exports.pod_file("src/pico8.js", tail.encode()), exports.pod_file("src/pico8_wasm.js", wtail.encode())])
        boot = carts.write_p8(rand_boot(rng), rng)
        dat = exports.pod_write([exports.pod_file("pod/pico8_boot.p8", boot.encode()), exports.pod_file("pod/gfx1.pod", gfx), exports.pod_file("pod/f_pico8.pod", fnt),
                                 exports.pod_file("pod/f_html5.pod", html, exports.lz4_encode(html, rng))])
        dp = s.write("pico8.dat", dat)
        kind = rng.choice([Js, Pod])(rng)
        kn = type(kind).__name__
        names = rng.sample([n for n in NAMES if "/" not in n], rng.choice([1, 2, 3]))
        args, model = [], []
        for n in names:
            m = rand_cart(rng, rng.random() < 0.1)
            m.version = 43
            cp = s.write("in/" + n, carts.write_p8(m, rng)) if not n.endswith(".png") else s.write("in/" + n, "")
            if n.endswith(".png"):
                mm = p21.Model()
                mm.code, mm.rom, mm.version, mm.parts, mm.platform = m.code, m.rom, 43, (0, 2, 6, 2), "w"
                os.replace(p21.first_file(rng, s, mm, "png"), cp)
            args.append(cp)
            model.append((n, (p21.clean_code(m.code), m.rom)))
        out = "new" + kind.ext
        if rng.random() < 0.5:
            args = [args[0]] + [x for a in args[1:] for x in ("--extra-input", a)] + ["--pico8-dat", dp]
            args.insert(1, s.path(out))
        else:
            args = args + [s.path(out), "--pico8-dat", dp]
        if rng.random() < 0.3:
            args += ["--output-cart", "renamed.p8"]
            model[0] = ("renamed.p8", model[0][1])
        r = cli(args)
        if r.crashed or r.rc or not s.exists(out):
            rec.violation("tool-crash" if r.crashed else "rejected", f"creating a {kn} export of {names} failed", args=args, **r.brief())
            return
        try:
            got, rest = kind.load(s.read(out))
        except carts.BadFormat as e:
            rec.violation("format", f"the new {kn} export is malformed: {e}", args=args)
            return
        if kn == "Js":
            ok = rest[2].endswith(tail)
        else:
            ok = len(rest[1]) == 3
            if ok:
                for raw, orig in ((rest[1][2], fnt),):
                    _, ents = exports.pod_read(raw[76:])
                    ok = ok and [(e[3], e[0][8:24] if e[1] in (b"CBMP", b"cBMP") else None) for e in ents] == \
                        [(e[3], e[0][8:24] if e[1] in (b"CBMP", b"cBMP") else None) for e in exports.pod_read(orig)[1]]
        if not ok:
            rec.violation("player-files", f"the new {kn} export doesn't hold the files of pico8.dat", args=args)
            return
        if check_file(rec, kind, s, out, model, rest, f"new {kn} export", args) is not None:
            rec.event("created " + kn)
            rec.eval((kn, tuple(names), hash(str(model))))
            rec.sample([kn, names])


def rand_boot(rng):
    m = p21.Model()
    m.code, m.version = "-- boot\n", 43
    return m


FAMILIES = [Family("history", history, 500, 14000, need=[f"{o} {k}" for o in ("insert", "replace", "delete", "rename") for k in ("Js", "Pod")]
                   + ["refused", "list", "dump rom", "dump p8", "read p8", "read rom", "moved between exports"]),
            Family("create", create, 300, 8000, need=["created Js", "created Pod"])]

if __name__ == "__main__":
    sys.exit(core.main(sys.modules[__name__]))
