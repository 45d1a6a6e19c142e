"""C27: Picotron data encodings round-trip."""
import os, re, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, p64, pods, exports, carts
from vlib.core import Family
from vlib.tool import cli, Scratch

PROP = "C27"
LEVEL = "exploration"
LEVEL_NOTE = "values nested up to 4 levels, userdata of up to 20000 elements and lz4 buffers of up to 140 KB are sampled, with shapes chosen around the encodings' limits"
TECHNIQUE = "runtime monitoring: pods, pxu and lz4 data written by the real tool are decoded by independent decoders and compared with the stored values"
RULE = "a case counts as distinct when the (values, options) tuple is new and at least one encoded datum was decoded by the oracle"
ASSUMPTIONS = ["pods are Lua 5.4 table constructors with userdata(...) and unpod(...); a nil entry is no entry", "the pxu layout is the one that the tool's reader documents (Picotron's own isn't published)",
               "the case of userdata's hex digits is irrelevant", "lz4 blocks follow the block format's end rules"]
META = b"--[[pod,modified=\"2024-01-01\",revision=3]]"


def rbytes(rng):
    k = rng.random()
    n = rng.choice([0, 1, 3, 10, 40])
    if k < 0.4:
        return b" ".join(rng.choice([b"foo", b"bar", b"x", b"[[", b"]]", b"--", b"12", b"\\", b"\"", b"'", b"\n", b"\0", b"pxu\0", b"lz4\0", b"b64:", b"{", b"userdata()", b"\0001", b"\r\n", "é".encode(), b"--[[pod]]", b"0", b"\x0b"]) for _ in range(n % 7))
    if k < 0.7:
        return bytes(rng.randrange(256) for _ in range(n))
    return bytes(rng.choice(b"abcdef 0123") for _ in range(n))


def rint(rng):
    k = rng.random()
    if k < 0.5:
        return rng.choice([0, 1, 2, 3, 5, 10, 255, 256, -1, -2])
    if k < 0.8:
        b = rng.choice([7, 8, 15, 16, 31, 32, 52, 53, 62, 63])
        return pods.wrap(rng.choice([1, -1]) * (1 << b) + rng.choice([-1, 0, 0, 1]))
    return rng.randrange(-2**63, 2**63)


def rfloat(rng):
    k = rng.random()
    if k < 0.4:
        return rng.choice([0.0, -0.0, 0.5, -0.5, 1.0, 2.0, 0.1, 100.0, 1e15, 1e16, 1e100, -1e-7, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 2.0**53, 2.0**63, -2.0**63, 1e22, 123456789.125, 3.0])
    if k < 0.7:
        return rng.randrange(-10**6, 10**6) / rng.choice([1, 2, 8, 10, 100, 1000, 3, 7])
    while True:
        f = struct.unpack("<d", rng.getrandbits(64).to_bytes(8, "little"))[0]
        if f == f and abs(f) != float("inf"):
            return f


def hexdata(rng, n, size):
    """n elements"""
    if n and rng.random() < 0.6:
        vals = []
        pool = [rng.randrange(1 << 8 * size) for _ in range(rng.choice([1, 2, 3, 14, 15, 16, 17, 40]))]
        if rng.random() < 0.5:
            pool += list(range(rng.choice([3, 15, 16])))
        while len(vals) < n:
            vals += [rng.choice(pool)] * rng.choice([1, 1, 1, 2, 3, 15, 16, 17, 255, 256, 257, 270, 271, 272, 510, 511, 512, 600])
        vals = vals[:n]
    else:
        vals = [rng.randrange(1 << 8 * size) for _ in range(n)]
    s = "".join("%0*x" % (2 * size, v) for v in vals).encode()
    return s.upper() if rng.random() < 0.05 else s


def rud(rng, rec=None, big=False):
    name, size = rng.choice([(b"u8", 1), (b"u8", 1), (b"i16", 2), (b"i16", 2), (b"i32", 4), (b"u16", 2), (b"i64", 8)])
    dims = [0, 1, 2, 3, 5, 8, 16, 40] + ([127, 254, 255, 256, 257, 300, 1000] if big else [])
    w, h = rng.choice(dims), rng.choice([0, 0, 1, 2, 3, 7] + ([255, 256, 60] if big else []))
    if rng.random() < 0.15:
        w, h = h, w
    if w * (h or 1) > 20000:
        h = 2
    if rng.random() < 0.08:
        return ("u", b"f64", 2, 0, b"1.5,-2.25")
    n = w * (h or 1)
    if rng.random() < 0.1:
        n = max(0, n + rng.choice([-1, -3, 1, 2, -n]))   # (fewer or more values than the size tells)
        rec and rec.event("data of another length")
    return ("u", name, w, h, hexdata(rng, n, size))


def rvalue(rng, depth=0):
    k = rng.random()
    if depth < 4 and k < (0.9 if depth == 0 else 0.35):
        d = {}
        for i in range(rng.choice([0, 1, 2, 3, 6])):
            q = rng.random()
            if q < 0.4:
                key = ("i", i + 1)
            elif q < 0.75:
                key = ("s", rng.choice([b"a", b"b", b"name", b"x1", b"_", b"end", b"goto", b"nil", b"and", b"userdata", b"unpod", b"\xe9", "é".encode(), b"a b", b"1", b"", rbytes(rng)]))
            elif q < 0.88:
                key = ("i", rint(rng))
            elif q < 0.96:
                key = pods.canon_key(("f", rfloat(rng)))
            else:
                b = rng.choice([True, False])
                if ("i", int(b)) in d:
                    continue   # (True/1 at once: a known finding, see the family boolkeys)
                key = ("b", b)
            if key[0] == "i" and key[1] in (0, 1) and ("b", bool(key[1])) in d:
                continue
            v = rvalue(rng, depth + 1)
            if v is not None:
                d[key] = v
        return ("t", d)
    k = rng.random()
    if k < 0.3:
        return ("i", rint(rng))
    if k < 0.5:
        return ("f", rfloat(rng))
    if k < 0.75:
        return ("s", rbytes(rng))
    if k < 0.85:
        return rng.choice([True, False])
    if k < 0.9:
        return rud(rng)
    return None if depth else ("i", 0)


def check(rec, want, data, opts, what, **kw):
    """data: the stored payload. -> ok"""
    stats = {}
    try:
        got = pods.decode(data, stats)
    except (carts.BadFormat, ValueError, IndexError, struct.error) as e:
        rec.violation("pod-format", f"{what}: the written pod can't be decoded: {e}", written=repr(data)[:600], **kw)
        return False
    if pods.freeze(got) != pods.freeze(want):
        rec.violation("pod-value", f"{what}: {str(want)[:200]} became {str(got)[:200]}", written=repr(data)[:600], **kw)
        return False
    if "-u" in opts and (stats.get("lz4") or stats.get("pxu")):
        rec.violation("uncompress", f"{what}: the pod is still compressed", **kw)
        return False
    if "--base64-pods" in opts and "--keep-pod-compression" not in opts and not stats.get("b64"):
        rec.violation("base64", f"{what}: the pod isn't base64", **kw)
        return False
    if "--base64-pods" not in opts and stats.get("b64") and "--keep-pod-compression" not in opts:
        rec.violation("base64", f"{what}: the pod is base64 though not asked for", **kw)
        return False
    for x in stats:
        rec.event("decoded " + x)
    rec.event("pods decoded")
    return True


def run(rng, rec, values, big=False):
    opts = rng.choice([[], [], ["-u"], ["-u"], ["--base64-pods"], ["-u", "--base64-pods"], ["--keep-pod-compression"]])
    with Scratch() as s:
        payloads = {f"f{i}.{rng.choice(['pod', 'gfx', 'map', 'x'])}": (v, pods.encode(v, rng)) for i, v in enumerate(values)}
        route = rng.choice(["p64", "p64", "rom", "pod", "rom>p64"])
        files = {n: META + d for n, (v, d) in payloads.items()}
        files["main.lua"] = b"x=1\n"
        rt = rng.choice([None, None, 20, 21, 18])
        if rt:
            files[".info.pod"] = b"--[[pod,runtime=%d]]" % rt
        if route == "pod":
            n, (v, d) = rng.choice(list(payloads.items()))
            inp, out = s.write("in.pod", d), s.path("out.pod")
            args = [inp, out] + opts
        else:
            src = route.split(">")[0]
            inp = s.write("in.p64", p64.write_p64(files, rng)) if src == "p64" else s.write("in.p64.rom", p64.write_rom(files, rng))
            to = route.split(">")[-1]
            out = s.path("out." + ("p64" if to == "p64" else "p64.rom"))
            args = [inp, out] + opts
        r = cli(args, lang="picotron")
        if r.crashed or r.rc or not os.path.exists(out):
            rec.violation("tool-crash" if r.crashed else "rejected", f"{route} {opts} failed", args=args, files=repr(files)[:800], **r.brief())
            return
        data = s.read(os.path.basename(out))
        try:
            if route == "pod":
                if not check(rec, v, data, opts, f"pod file, {opts}", input=repr(d)[:600]):
                    return
                if "--keep-pod-compression" in opts and data != d:
                    rec.violation("kept", "--keep-pod-compression changed the pod", input=repr(d)[:600], written=repr(data)[:600])
                    return
            else:
                got = p64.read_p64(data)[0] if out.endswith(".p64") else p64.read_rom(data)[0]
                if set(got) != set(files):
                    rec.violation("files", f"{route} {opts}: files {sorted(set(files) ^ set(got))} differ")
                    return
                for n, (v, d) in payloads.items():
                    if not got[n].startswith(META):
                        rec.violation("metadata", f"{route} {opts}: metadata became {got[n][:60]!r}")
                        return
                    if not check(rec, v, got[n][len(META):], opts, f"{route}, {opts}", input=repr(d)[:600]):
                        return
                    if "--keep-pod-compression" in opts and got[n] != files[n]:
                        rec.violation("kept", "--keep-pod-compression changed the pod", input=repr(d)[:600], written=repr(got[n])[:600])
                        return
        except carts.BadFormat as e:
            rec.violation("format", f"{route} {opts}: the written cart is malformed: {e}", args=args)
            return
        rec.event("route " + route)
        rec.event("options " + " ".join(opts))
        rec.eval((route, tuple(opts), hash(str(values))))
        rec.sample([route, opts, str(values)[:150]])


def values(rng, rec):
    run(rng, rec, [rvalue(rng) for _ in range(rng.choice([1, 1, 2, 3]))])


def userdata(rng, rec):
    us = [rud(rng, rec, True) for _ in range(rng.choice([1, 2, 3]))]
    run(rng, rec, [us[0]] if len(us) == 1 and rng.random() < 0.3 else [("t", {("i", i + 1): u for i, u in enumerate(us)})])


def lz4(rng, rec):
    """byte buffers, stored in a rom"""
    k = rng.random()
    n = rng.choice([0, 1, 4, 5, 11, 12, 13, 14, 16, 17, 18, 19, 20, 30, 100, 300, 1000])
    if k < 0.3:
        buf = bytes(rng.choice(b"ab") for _ in range(n))
    elif k < 0.5:
        buf = bytes(rng.randrange(256) for _ in range(n))
    elif k < 0.75:
        # literal runs and matches of lengths around the field limits
        buf, dic = b"", bytes(rng.randrange(256) for _ in range(1200))
        for _ in range(rng.choice([1, 2, 4])):
            lit = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 14, 15, 16, 17, 269, 270, 271, 524, 525, 526])))
            m = rng.choice([0, 3, 4, 5, 18, 19, 20, 272, 273, 274, 275, 528, 529, 530, 531])
            a = rng.choice([0, 1, 7])
            buf += rng.choice([dic[a:a + m], bytes([rng.randrange(256)]) * m]) + lit
        buf = dic + buf if rng.random() < 0.7 else buf
    elif k < 0.95:
        buf = bytes([rng.randrange(256)]) * rng.choice([1, 15, 20, 270, 300, 1000]) + bytes(rng.randrange(4) for _ in range(rng.choice([0, 3, 5, 12])))
    else:
        # matches around the largest offset
        key = bytes(rng.randrange(256) for _ in range(40))
        gap = rng.choice([65535, 65536, 65534, 65496, 65495, 65530]) - 40
        buf = key + bytes(rng.randrange(256) for _ in range(gap)) + key + b"tail of the buffer..."
        rec.event("far matches")
    files = {"f.bin": buf}
    with Scratch() as s:
        inp = s.write("in.p64", p64.write_p64(files, rng))
        args = [inp, s.path("o.p64.rom"), "--keep-pod-compression"] + (["--fast-compression"] if rng.random() < 0.4 else [])
        r = cli(args, lang="picotron")
        if r.crashed or r.rc:
            rec.violation("tool-crash" if r.crashed else "rejected", "writing a rom failed", args=args, buf=repr(buf)[:500], **r.brief())
            return
        data = s.read("o.p64.rom")
        try:
            got, _, _ = p64.read_rom(data)
        except carts.BadFormat as e:
            rec.violation("lz4-format", f"lz4 data can't be decoded: {e}", args=args, buf=repr(buf)[:1500])
            return
        if got != files:
            rec.violation("lz4-data", f"lz4 data decodes to something else", args=args, buf=repr(buf)[:1500])
            return
        # and back, from our own encoding as well
        z = s.write("b.p64.rom", rng.choice([data, p64.write_rom(files, rng)]))
        r = cli([z, s.path("b.p64"), "--keep-pod-compression"], lang="picotron")
        if r.crashed or r.rc or p64.read_p64(s.read("b.p64"))[0] != files:
            rec.violation("lz4-read", "reading lz4 data gave something else", buf=repr(buf)[:1500], **r.brief())
            return
        rec.event("lz4 blocks", 2)
        rec.eval((hash(buf), "--fast-compression" in args))
        rec.sample([len(buf), repr(buf[:30])])


def boolkeys(rng, rec):
    """true next to 1, or false next to 0"""
    b = rng.choice([True, False])
    v = ("t", {("b", b): ("s", b"bool"), ("i", int(b)): ("s", b"int")})
    with Scratch() as s:
        r = cli([s.write("i.pod", pods.encode(v, rng, 0, 0)), s.path("o.pod")], lang="picotron")
        if r.rc or r.crashed:
            rec.violation("rejected", "converting a pod failed", **r.brief())
            return
        got = pods.decode(s.read("o.pod"))
        if pods.freeze(got) != pods.freeze(v):
            rec.violation("bool-int-key", f"a table with both {str(b).lower()} and {int(b)} as keys became {got}")
        rec.event("bool keys")
        rec.eval(b)


FAMILIES = [Family("values", values, 3500, 90000, need=["decoded lz4", "decoded b64", "decoded pxu", "pods decoded"]),
            Family("userdata", userdata, 700, 25000, need=["decoded pxu", "pods decoded", "data of another length"]),
            Family("lz4", lz4, 1000, 30000, need=["lz4 blocks", "far matches"]),
            Family("boolkeys", boolkeys, 8, 40, need=["bool keys"])]

if __name__ == "__main__":
    sys.exit(core.main(sys.modules[__name__]))
