"""C35: output is a deterministic function of input and options."""
import json, os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, carts, exports, luagen, mini, p64, plua, soup
from vlib.core import Family
from vlib.tool import Scratch, p8_to_uni
import p06, p21, p25, p26

PROP = "C35"
LEVEL = "exploration"
LEVEL_NOTE = "each command line is run in three processes (other hash seeds, clocks, directories, neighbours and order of runs), and twice in one of them"
TECHNIQUE = "runtime monitoring: the same command lines are run by the real tool in several differently set up processes; exit codes, messages and all written files are compared byte by byte"
RULE = "a case counts as distinct when the (files, arguments) pair is new"
ASSUMPTIONS = ["paths in messages are compared relative to the scratch directory"]
CASE_CPU_LIMIT = 60
SLOW_OK = True
RUNNER = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vlib", "runner.py")


def names_program(rng):
    """many names with equal and similar use counts"""
    words = ["v%d" % i for i in range(rng.choice([10, 40, 70]))] + ["foo", "bar", "baz", "x", "y", "_update", "_draw", "name", "self"]
    rng.shuffle(words)
    out = []
    for _ in range(rng.choice([5, 20, 60])):
        a, b, c = rng.choice(words), rng.choice(words), rng.choice(words)
        out.append(rng.choice([f"{a}={b}", f"{a}.{b}={c}", f"local {a},{b}={c},1", f"function {a}({b},{c}) return {b}+{a} end", f"{a}={{{b}=1,{c}=2,{a}}}",
                               f"for {a} in all({b}) do {c}({a}) end", f"if({a}) {b}={c}", f"{a}[{b}]={c} or 'str'", f"goto {a} ::{a}::" if rng.random() < 0.2 else f"{a}+=1", f"{a}:{b}({c})",
                               f"{a}=\"{b}\"--[[member]]", f"--preserve: {a}, *.{b}", f"--lint: {a}", f"?{a}", f"do local {a} <const> = 5 {b}={a} end" if 0 else f"{b}=({c})"]))
    return "\n".join(out)


def p8(rng, code):
    m = p21.Model()
    m.code = code
    m.rom = carts.rand_rom(rng)
    if rng.random() < 0.3:
        m.meta = {"title": ["a title"], "foo": ["x", "y"]}
    return mini.p8_text(code) if rng.random() < 0.7 else carts.write_p8(carts.Cart(code, m.rom, version=43, meta=m.meta if hasattr(m, "meta") else None), rng)


def task(rng):
    """-> (files, args, lang)"""
    k = rng.random()
    files, args = {}, []
    if k < 0.5:
        code = names_program(rng) if k < 0.25 else soup.soup(rng) if k < 0.4 else luagen.program(rng, mode="safe", size=rng.choice([10, 40]))
        code = code.replace("\r", " ")
        kind = rng.choice(["p8", "p8", "lua"])
        files["in." + kind] = p8(rng, code) if kind == "p8" else p8_to_uni(code) + "\n"
        q = rng.random()
        if q < 0.15:
            args = ["in." + kind, "--lint"] + rng.choice([[], ["--error-format", "tabbed"]])
        else:
            out = rng.choice(["p8", "p8", "lua", "png", "rom", "tiny-rom", "url", "clip"])
            args = ["in." + kind, "out." + out, "--format", out]
            if q < 0.7:
                args += mini.rand_config(rng, rng.random() < 0.3)
                if rng.random() < 0.5:
                    args += ["--rename-map", "map.txt"]
                if rng.random() < 0.3:
                    args += ["--preserve", rng.choice(["v1,v2,*.v3", "*.*", "v1.*", "*=*.*", "v3 v4 v5 v6"])]
                if rng.random() < 0.2:
                    args += ["--const", "v1", "5"]
            elif q < 0.8:
                args += ["--unminify"]
            if rng.random() < 0.2:
                args.append("--lint")
            if rng.random() < 0.3:
                args.append("--count")
            if rng.random() < 0.1:
                args += ["--extra-output", "extra.p8", "--extra-output", "e.bin", "rom"]
            if out == "png" and rng.random() < 0.3:
                args.append("--optimize-png-compression")
    elif k < 0.62:
        # includes
        n = rng.choice([1, 2, 3])
        for i in range(n):
            files[f"lib/inc{i}.lua"] = p8_to_uni(names_program(rng)) + "\n"
        files["in.p8"] = p8(rng, "\n".join(f"#include lib/inc{i}.lua" for i in range(n + (rng.random() < 0.1))))
        args = ["in.p8", "out." + rng.choice(["p8", "lua"])] + rng.choice([["--minify"], [], ["--lint"], ["--unminify"]])
    elif k < 0.85:
        tree = p26.tree(rng)
        if rng.random() < 0.7:
            tree["main.lua"] = p8_to_uni(names_program(rng)).encode() + b"\n"
        if rng.random() < 0.5:
            tree["lib.lua"] = p8_to_uni(names_program(rng)).encode() + b"\n"
        src = rng.choice(["p64", "rom", "dir", "dir"])
        if src == "dir":
            for n, d in tree.items():
                files["cart/" + n] = d
            inp = "cart/"
        elif src == "p64":
            files["in.p64"], inp = p64.write_p64(tree, rng), "in.p64"
        else:
            files["in.p64.rom"], inp = p64.write_rom(tree, rng), "in.p64.rom"
        out = rng.choice(["out.p64", "out.p64.rom", "out/", "out.p64.png", "out.lua", None])
        args = [inp] + ([out] if out else ["--list"])
        if out:
            if rng.random() < 0.5:
                args += ["--minify"] + rng.choice([[], ["--code-files", "*.lua"], ["--rename-map", "map.txt"]])
            args += rng.choice([[], [], ["--filter", "*.lua *.pod"], ["-u"], ["--base64-pods"], ["--count"], ["--delete-label"], ["--extract", "main.lua", "x.lua"]])
            if rng.random() < 0.2:
                files["ins/a.txt"] = b"hi"
                files["ins/b/c.txt"] = b"hu"
                files["ins/d.gfx"] = b"--[[pod]]{}"
                args += ["--insert", "ins", "some/where"]
        return files, args, "picotron"
    elif k < 0.93:
        pairs = []
        for n in ["main.p8", "a.p8", "b.p8", "c.p8"][:rng.choice([1, 2, 4])]:
            pairs.append((n, p25.rom_of(p25.rand_cart(rng))))
        kind = rng.choice([p25.Js, p25.Pod])(rng)
        files["e" + kind.ext] = kind.build(rng, pairs)
        files["n.p8"] = p8(rng, names_program(rng))
        args = rng.choice([["e" + kind.ext, "--list"], ["e" + kind.ext, "--dump", "dir"], ["n.p8", "e" + kind.ext, "--insert-cart", "z.p8"], ["n.p8", "e" + kind.ext, "--replace-cart", "main.p8", "--minify"],
                           ["e" + kind.ext, "out.p8"], ["e" + kind.ext, "--delete-cart", "main.p8"]])
    else:
        files["in.p8"] = p8(rng, names_program(rng))
        files["s.py"] = rng.choice([
            "def preprocess_main(cart, src, ctxt, **_):\n    cart.code=cart.code.replace('v1','v2')\n",
            "count=0\ndef postprocess_main(cart, **_):\n    global count\n    count+=1\n    cart.code+='\\n--%d' % count\n    cart.rom[3]=7\n",
            "def preprocess_syntax_main(cart, root, on_error, **_):\n    for n in root.stmts:\n        on_error('statement '+str(n.type), n)\n"])
        args = ["in.p8", "out.p8", "--script", "s.py"] + rng.choice([[], ["--minify"], ["--lint"]])
    return files, args, "pico8"


def run(rng, rec):
    tasks = [task(rng) for _ in range(rng.choice([12, 16]))]
    n = len(tasks)
    results = []
    with Scratch() as s:
        for v in range(3):
            order = list(range(n))
            if v:
                rng.shuffle(order)
            if v == 2:
                order = order[:n // 2] + [("again", order[0])] + order[n // 2:] + [("again", i) for i in rng.sample(order, min(4, n))]
            jobs = []
            for o in order:
                again = isinstance(o, tuple)
                i = o[1] if again else o
                files, args, lang = tasks[i]
                d = s.path(f"v{v}", f"t{i}{'r' if again else ''}{len(jobs) if again else ''}", "work")
                os.makedirs(d)
                names = list(files)
                if v:
                    rng.shuffle(names)
                for nm in names:
                    p = os.path.join(d, nm)
                    if files[nm] is None:
                        os.makedirs(p, exist_ok=True)
                        continue
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "wb") as f:
                        f.write(files[nm] if isinstance(files[nm], bytes) else files[nm].encode("utf8", "surrogateescape"))
                if v == 2:
                    for nm in ["..", "zz", "other"]:   # unrelated neighbours
                        p = os.path.join(d, nm, "unrelated.lua")
                        if nm != "..":
                            os.makedirs(os.path.dirname(p), exist_ok=True)
                        with open(p, "w") as f:
                            f.write("x=1\n")
                cwd, use = d, list(args)
                if v == 1 and not rng.random() < 0.3:
                    how = rng.choice(["abs", "up"])
                    pre = d + "/" if how == "abs" else "../work/"
                    cwd = "/" if how == "abs" else os.path.join(d, "..", "elsewhere")
                    os.makedirs(cwd, exist_ok=True)
                    paths = set(files) | {"map.txt", "extra.p8", "e.bin", "dir", "x.lua", "ins", "out/", "cart/"}
                    use = [pre + a if (a in paths or re.fullmatch(r"out\.[a-z0-9.-]+", a)) and use[j - 1] not in ("--extract", "--insert-cart", "--replace-cart", "--delete-cart") or j and use[j - 2] == "--extract" else a
                           for j, a in enumerate(use)]
                jobs.append((i, again, d, [d, cwd, use, lang]))
            env = {k: x for k, x in os.environ.items() if not k.startswith("PYTHON")}
            env["PYTHONHASHSEED"] = str(rng.randrange(1, 2**32)) if v else "0"
            env["PYTHONDONTWRITEBYTECODE"] = "1"
            if v == 1:
                env.update(HOME=s.path("home"), TZ="Asia/Tokyo", LC_ALL="C")
            p = subprocess.run([sys.executable, RUNNER], input=json.dumps({"tasks": [j[3] for j in jobs], "clock": [0, 86400 * 400, -86400 * 9][v]}).encode(), capture_output=True, env=env, timeout=300)
            if p.returncode:
                raise RuntimeError("runner failed: " + p.stderr.decode("utf8", "replace")[-600:])
            for (i, again, d, _), r in zip(jobs, json.loads(p.stdout)):
                r[4] = {f: h for f, h in r[4].items() if not f.startswith(("zz/", "other/"))}
                for x in (1, 2):
                    r[x] = r[x].replace(os.path.dirname(d) + "/elsewhere/../work/", "").replace("../work/", "").replace(d + "/", "").replace(d[1:] + "/", "").replace(d, "")
                results.append((i, v, again, r))
    base = {i: r for i, v, again, r in results if v == 0}
    for i, v, again, r in results:
        if v == 0:
            continue
        b = base[i]
        files, args, lang = tasks[i]
        what = ("in another process (hash seed, clock, directory)" if not again else "when run again in the same process")
        for x, nm in ((0, "exit code"), (3, "exception"), (4, "written files"), (1, "printed text"), (2, "messages")):
            if b[x] != r[x]:
                diff = f"{b[x]!r} / {r[x]!r}" if x != 4 else sorted(f for f in set(b[4]) | set(r[4]) if b[4].get(f, 0) != r[4].get(f, 0))
                rec.violation("nondeterministic", f"{nm} of {' '.join(args)} differ {what}: {str(diff)[:500]}", args=args, lang=lang,
                              files={k: (f if isinstance(f, str) else repr(f))[:3000] for k, f in files.items()}, variant=v)
                break
        else:
            rec.event("repeated runs" if again else "runs compared")
    for i, (files, args, lang) in enumerate(tasks):
        r = base[i]
        rec.event(f"exit code {r[0]}")
        if "out" in "".join(args):
            rec.event("outputs", any(f.startswith("out") for f in r[4]))
        rec.eval((hash(str(sorted(files.items(), key=lambda x: x[0]))), tuple(args)))
    rec.sample([tasks[0][1], base[0][0]])


FAMILIES = [Family("runs", run, 64, 2000, need=["runs compared", "repeated runs", "outputs", "exit code 0", "exit code 2"])]

if __name__ == "__main__":
    sys.exit(core.main(sys.modules[__name__]))
