"""C36: all ways of naming inputs and outputs are equivalent."""
import os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, carts, luagen, mini, p64, soup
from vlib.core import Family
from vlib.tool import cli, Scratch, p8_to_uni
import p21, p26, p35

PROP = "C36"
LEVEL = "exploration"
LEVEL_NOTE = "each cart is sent through 3 of about 14 routes, compared with the plain file-to-file run"
TECHNIQUE = "runtime monitoring: what the real tool writes through different routes (guessed or given formats, streams, extra outputs, in-place, scripts, separate runs) is compared byte by byte"
RULE = "a case counts as distinct when the (cart, formats, options, route) tuple is new"
ASSUMPTIONS = ["roms have no signature, so their format is never guessed from contents", "the contents of stdin are taken as a file without an extension"]
SLOW_OK = True
CASE_CPU_LIMIT = 60

EXT = {"p8": "p8", "png": "p8.png", "rom": "rom", "clip": "clip", "url": "url", "lua": "lua", "tiny-rom": "tiny_rom", "label": "png", "spritesheet": "png"}
MAIN = {"pico8": "shrinko8.py", "picotron": "shrinkotron.py"}


class Job:
    """input, how to call the tool on it, and the expected output"""


def go(rec, j, args, stdin=b"", real=False, cwd=None):
    if real:
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        p = subprocess.run([sys.executable, os.path.join(core.REPO, MAIN[j.lang])] + args, input=stdin, capture_output=True, env=env, timeout=120, cwd=cwd)
        return p.returncode, p.stdout, p.stderr.decode("utf8", "replace"), None
    old = os.getcwd()
    if cwd:
        os.chdir(cwd)
    try:
        r = cli(args, stdin=stdin, lang=j.lang)
    finally:
        os.chdir(old)
    return r.rc, r.outb, r.err, r.exc


def read_out(p):
    """what's at a path: bytes, a tree, or None"""
    if os.path.isdir(p):
        return p64.read_dir(p)
    if not os.path.exists(p):
        return None
    with open(p, "rb") as f:
        return f.read()


ROUTES = ["given formats", "given format of the input", "given format of the output", "guessed from contents", "auto", "stdin", "stdin guessed", "stdout", "streams", "extra output", "extra output, given",
          "in place", "upper case", "script", "spelling", "relative", "two runs", "real process", "lint", "again"]


def route(rng, rec, j, s, how):
    """-> (args as run, output) or None when the route doesn't apply"""
    i, o, fi, fo, opts = j.inp, s.path("r." + j.ext), j.fi, j.fo, list(j.opts)
    isdir = os.path.isdir(i)
    stdin, real, cwd, out = b"", False, None, o
    base = lambda: open(i, "rb").read()
    odd = lambda: s.path(rng.choice(["in.xyz", "in", "in.p8.bak", "in.txt"]))
    given_out = ["-f", fo] if j.need_f else []
    sel = j.in_f
    if how in ("given formats", "given format of the input", "given format of the output"):
        a = i
        if how != "given format of the output":
            a = odd()
            if isdir:
                a = i
            else:
                shutil.copy(i, a)
        if how != "given format of the input":
            out = s.path(rng.choice(["r.xyz", "r", "r.lua.bak"])) if fo != "dir" else o
        args = [a, out] + (["-F", fi] if a is not i or rng.random() < 0.5 or sel else []) + (["-f", fo] if out is not o or j.need_f else [])
    elif how in ("guessed from contents", "auto"):
        if not j.guessable or isdir:
            return None
        a = odd() if rng.random() < 0.7 else i
        if a is not i:
            shutil.copy(i, a)
        args = [a, o] + given_out + (["-F", "auto"] if how == "auto" else sel if a is i else [])
    elif how in ("stdin", "stdin guessed", "streams"):
        if isdir or how == "stdin guessed" and not j.guessable:
            return None
        stdin = base()
        args = ["-"] + (["-F", fi] if how != "stdin guessed" else [])
        real = rng.random() < 0.2
        if how == "streams":
            if fo == "dir":
                return None
            args, out = ["-", "-"] + args[1:] + ["-f", fo], None
        else:
            args += [o] + given_out
            args = [args[0], o] + args[1:-1 - len(given_out)] + given_out
    elif how == "stdout":
        if fo == "dir":
            return None
        args, out = [i, "-", "-f", fo] + sel, None
        real = rng.random() < 0.2
    elif how in ("extra output", "extra output, given"):
        if how == "extra output, given" or j.need_f:
            e = s.path("extra.abc")
            ex = ["--extra-output", e, fo]
        else:
            e = o
            ex = ["--extra-output", e]
        if j.lang == "picotron" and (fo == "png" or not any(a in j.opts for a in ("-u", "--keep-pod-compression"))):
            return None   # (the label's removal and the compression of pods follow the main output's format)
        other = rng.choice(["p8", "lua", "rom", "tiny-rom", "png", "clip"] if j.lang == "pico8" else ["p64", "rom", "lua"])
        main = s.path("m.out")
        args = [i, main, "-f", other] + sel + ex
        if rng.random() < 0.3:
            args += ["--extra-output", s.path("third.rom"), "rom"]
        out = e
        # the main output is the same as alone as well
        alone = go(rec, j, [i, s.path("alone.out"), "-f", other] + sel + opts)
        both = go(rec, j, args + opts)
        if alone[0] == 0 and both[0] == 0:
            if read_out(main) != read_out(s.path("alone.out")):
                rec.violation("extra-output", f"{j.what}: with an extra output, the main output ({other}) differs", args=args + opts)
                return None
            rec.event("main outputs compared")
        elif alone[0] and not j.rc or "--list" in opts:
            return None   # (the main output isn't possible)
        if both[0] and not alone[0] and ("-f", "rom") and "third.rom" in " ".join(args):
            return None
        return args + opts, both, read_out(out)
    elif how == "in place":
        if fi != fo or isdir and rng.random() < 0.5 or j.need_f and not sel:
            return None
        a = s.path("place." + j.inext)
        (shutil.copytree if isdir else shutil.copy)(i, a)
        args, out = [a, "--in-place"] + sel, a
        if isdir:
            args.append("--clean-output-dir")
    elif how == "upper case":
        if isdir or fo == "dir" or sel or j.need_f:
            return None
        a = s.path("IN." + j.inext.upper())
        shutil.copy(i, a)
        out = s.path("R." + j.ext.upper())
        args = [a, out]
    elif how == "script":
        if "--lint" in opts or not j.code_lints:
            return None
        sc = s.write("s.py", rng.choice(["", "def preprocess_main(**_): pass\ndef postprocess_main(**_): pass\n", "def preprocess_syntax_main(root, **_):\n    root.traverse_nodes(lambda n: None)\n"]))
        args = [i, o, "--script", sc] + sel + given_out
    elif how == "spelling":
        long = {"-f": "--format", "-F": "--input-format", "-m": "--minify", "-M": "--minify-safe-only", "-U": "--unminify", "-p": "--preserve"}
        short = {v: k for k, v in long.items() if v != "--unminify"}
        args = [i, o] + sel + given_out
        parts = []
        k = 0
        allargs = (sel + given_out + opts)
        while k < len(allargs):
            t = [allargs[k]]
            k += 1
            while k < len(allargs) and not allargs[k].startswith("-"):
                t.append(allargs[k])
                k += 1
            t[0] = short.get(t[0], t[0]) if rng.random() < 0.5 else long.get(t[0], t[0])
            if t[0].startswith("--") and len(t) == 2 and rng.random() < 0.6:
                t = [t[0] + "=" + t[1]]
            parts.append(t)
        if any(p[0].startswith(("--const", "--str-const")) and len(p) > 1 for p in parts):
            return None
        seq = [p for p in parts]
        rng.shuffle(seq)
        flat = [x for p in seq for x in p]
        args = flat + ["--", i, o] if rng.random() < 0.5 and not any(len(p) > 1 and not p[0].startswith(("-f", "-F", "--f", "--input-f", "-p", "--p")) for p in seq) else [i, o] + flat
        res = go(rec, j, args)
        return args, res, read_out(out)
    elif how == "relative":
        cwd = s.path("sub")
        os.makedirs(cwd, exist_ok=True)
        k = rng.random()
        if k < 0.4:
            cwd = s.dir
            args = [os.path.basename(i.rstrip("/")), "r." + j.ext]
        elif k < 0.7:
            args = ["../" + os.path.basename(i), "../r." + j.ext]
        else:
            args = ["./../sub/../" + os.path.basename(i), o]
        if fo == "dir":
            args[1] = o
        args += sel + given_out
    elif how == "two runs":
        if j.lang == "pico8" and j.cr:
            return None
        # first the code transformation into a source cart, then the conversion
        if j.lang != "pico8" or not opts or "--lint" in opts or any(a.startswith(("--keep-comp", "--count")) for a in opts) or fo in ("p8", "lua", "label", "spritesheet"):
            return None
        mid = s.path("mid.p8")
        tr, conv = [], []
        k = 0
        while k < len(opts):
            (conv if opts[k] in ("--fast-compression", "--old-compression", "--force-compression", "--template-only", "--optimize-png-compression") else tr).append(opts[k])
            k += 1
        a = go(rec, j, [i, mid] + sel + tr)
        if a[0] == 0:
            args = [mid, o] + given_out + conv
            res = go(rec, j, args)
            rec.event("two steps")
            got = read_out(o)
            if fo in ("png", "clip") and got is not None and j.want is not None:
                # (p8 files hold no platform nor version parts, and titles differ when the comments are gone)
                f = carts.read_png if fo == "png" else lambda d: carts.read_clip(d.decode())
                x, y = f(got), f(j.want)
                if (x.code, x.rom, x.version) == (y.code, y.rom, y.version):
                    got = j.want
            return args + ["(after " + " ".join(tr) + ")"], res, got
        return None
    elif how == "real process":
        if rng.random() < 0.7:
            return None
        args, real = [i, o] + sel + given_out, True
    elif how == "lint":
        if "--lint" in opts or not j.code_lints:
            return None
        args = [i, o, "--lint", "--no-lint-fail"] + sel + given_out
        sep = go(rec, j, [i, "--lint", "--no-lint-fail"] + sel + [a for a in opts if a in ("--ignore-hints",)])
        res = go(rec, j, args + opts)
        if res[0] == 0 and sep[0] == 0:
            rec.event("lint with output")
            w = lambda t: [l for l in t.decode("utf8", "replace").split("\n") if l and not l.startswith(("tokens:", "chars:", "compressed:"))]
            if w(sep[1]) != w(res[1]):
                rec.violation("lint-combined", f"{j.what}: lint warnings differ when combined with an output", args=args + opts, alone=w(sep[1])[:10], combined=w(res[1])[:10])
                return None
        elif sep[0] != res[0]:
            return None
        return args + opts, res, read_out(out)
    else:
        args = [i, o] + sel + given_out
        go(rec, j, [i, s.path("first." + j.ext)] + sel + given_out)
    args = args + opts
    res = go(rec, j, args, stdin, real, cwd)
    if real:
        rec.event("real processes")
    return args, res, res[1] if out is None else read_out(out)


def compare(rng, rec, j, s, n=3):
    ref = s.path("ref." + j.ext)
    args = [j.inp, ref] + j.in_f + (["-f", j.fo] if j.need_f else []) + j.opts
    r = go(rec, j, args)
    j.rc, j.want = r[0], read_out(ref)
    if r[3]:
        rec.violation("tool-crash", f"{j.what} crashed", args=args, exc=r[3][-1500:])
        return
    if (j.want is None) != bool(j.rc):
        rec.violation("exit-code", f"{j.what}: exit code {j.rc}, output {'missing' if j.want is None else 'written'}", args=args, err=r[2][-500:])
        return
    rec.event("input " + j.fi)
    rec.event("output " + j.fo)
    for how in rng.sample(ROUTES, n):
        for f in os.listdir(s.dir):
            p = s.path(f)
            if p not in (j.inp, j.inp.rstrip("/")):
                shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
        res = route(rng, rec, j, s, how)
        if res is None:
            continue
        args, (rc, out, err, exc), got = res
        if exc:
            rec.violation("tool-crash", f"{j.what}, {how}, crashed", args=args, exc=exc[-1500:])
            continue
        det = dict(args=args, out=out[-300:].decode("latin-1"), err=err[-600:], input=repr(j.show)[:3000])
        if rc != j.rc:
            rec.violation("exit-code", f"{j.what}: exit code {rc} instead of {j.rc} via {how}: {' '.join(args)[:200]}", **det)
            continue
        if rc:
            rec.event("refused alike")
            continue
        if got != j.want:
            if isinstance(got, dict) and isinstance(j.want, dict):
                d = [n for n in sorted(set(got) | set(j.want)) if got.get(n, 0) != j.want.get(n, 0)]
            else:
                d = f"{len(got) if got is not None else None} vs {len(j.want)} bytes"
                if got is not None:
                    k = next((k for k, (a, b) in enumerate(zip(got, j.want)) if a != b), min(len(got), len(j.want)))
                    d += f", first difference at {k}: {got[max(0, k - 20):k + 20]!r} / {j.want[max(0, k - 20):k + 20]!r}"
            rec.violation("route", f"{j.what}: other result via {how} ({' '.join(args)[:200]}): {d}", **det)
            continue
        rec.event("route " + how)
        rec.eval((hash(str(j.show)), j.fi, j.fo, tuple(j.opts), how, tuple(a for a in args if "/" not in a)))
    rec.sample([j.what, j.opts])


def pico8(rng, rec):
    m = p21.Model()
    fi = rng.choice(["p8", "p8", "png", "rom", "lua", "clip"])
    k = rng.random()
    m.code = p21.rand_code(rng, True) if k < 0.4 else luagen.program(rng, mode="safe", size=rng.choice([5, 15])) if k < 0.7 else p35.names_program(rng)
    if rng.random() < 0.9:
        m.code = m.code.replace("\r", " ")   # (otherwise only in roms and the like)
    if len(m.code) > 15000 or fi == "lua" and re.match(r"pico-8 cartridge|__lua__", m.code):
        return
    m.version, m.parts, m.platform = rng.choice([43, 42, 18]), (0, 2, 6, 2), "w"
    if fi != "lua":
        m.rom = carts.rand_rom(rng) if rng.random() < 0.6 else p21.small_gfx(rng)
        if rng.random() < 0.4:
            m.label = carts.rand_label(rng, 15)
    j = Job()
    j.lang = "pico8"
    with Scratch() as s:
        j.inp, j.fi = p21.first_file(rng, s, m, fi), fi
        if fi == "clip" and False:
            return
        j.guessable = fi != "rom"
        j.inext = EXT[fi]
        fo = rng.choice(["p8", "p8", "png", "rom", "tiny-rom", "lua", "clip", "url", "label", "spritesheet"] + [fi] * 3)
        if fo == "label" and not m.label:
            fo = "p8"
        j.fo, j.ext, j.need_f, j.in_f = fo, EXT[fo], fo in ("tiny-rom", "label", "spritesheet"), []
        j.opts = []
        q = rng.random()
        if q < 0.4:
            j.opts += mini.rand_config(rng, rng.random() < 0.4)
        elif q < 0.5:
            j.opts += ["--unminify"]
        if rng.random() < 0.15:
            j.opts += ["--fast-compression"]
        if rng.random() < 0.1:
            j.opts += ["--force-compression"]
        if rng.random() < 0.1 and not j.opts:
            j.opts += ["--keep-compression"]
        j.code_lints = k >= 0.4   # (otherwise the code isn't a valid program)
        j.cr = "\r" in m.code
        j.what = f"{fi} > {fo} {' '.join(j.opts)}"
        j.show = m.code
        compare(rng, rec, j, s)


def picotron(rng, rec):
    files = p26.tree(rng, rng.random() < 0.7)
    if rng.random() < 0.5:
        files["main.lua"] = p8_to_uni(p35.names_program(rng)).encode() + b"\n"
    j = Job()
    j.lang = "picotron"
    fi = rng.choice(["p64", "p64", "rom", "dir"] + (["png"] if rng.random() < 0.3 else []))
    with Scratch() as s:
        if fi == "dir":
            files = p26.parents(files)
        j.inp = p26.put(rng, s, files, fi, "in", rng.choice([1, 2]))
        j.fi, j.guessable = fi, True
        j.inext = {"p64": "p64", "rom": "p64.rom", "png": "p64.png", "dir": "d"}[fi]
        j.fo = rng.choice(["p64", "p64", "rom", "dir", "lua", "tiny-rom"] + [fi] * 2 + (["png"] if rng.random() < 0.3 else []))
        j.ext = {"p64": "p64", "rom": "p64.rom", "png": "p64.png", "dir": "d", "lua": "lua", "tiny-rom": "tr"}[j.fo]
        j.need_f, j.in_f = j.fo in ("dir", "tiny-rom"), []
        j.opts = []
        if rng.random() < 0.3:
            j.opts += ["--minify"]
        j.opts += rng.choice([[], ["--keep-pod-compression"], ["--keep-pod-compression"], ["-u", "--base64-pods"], ["--filter=*.lua"]])
        j.code_lints = False
        j.what = f"picotron {fi} > {j.fo} {' '.join(j.opts)}"
        j.show = sorted(files.items(), key=lambda x: x[0])
        compare(rng, rec, j, s)


FAMILIES = [Family("pico8", pico8, 800, 40000, need=["route " + r for r in ROUTES] + ["two steps", "lint with output", "main outputs compared", "real processes"]),
            Family("picotron", picotron, 300, 15000, need=["route stdin", "route stdout", "route in place", "route extra output"])]

if __name__ == "__main__":
    sys.exit(core.main(sys.modules[__name__]))
