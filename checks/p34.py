"""C34: malformed input is refused cleanly."""
import base64, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, carts, exports, luagen, luarun, mini, mutate, p64, plua, pods, soup
from vlib.core import Family
from vlib.tool import cli, Scratch, p8_to_uni
import p09, p21, p25, p26, p27, p38

PROP = "C34"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: faults are injected into programs and cart files read by the real tool; exceptions, exit codes, messages, files and the amount of work are monitored, two independent parsers decide which programs are malformed"
RULE = "a case counts as distinct when the (input, command) pair is new"
ASSUMPTIONS = ["the compiler's finer rules (which numerals and escapes exist, where break, goto and ... may be, where the line of a shorthand ends) aren't grammar errors"]
CASE_CPU_LIMIT = 20
FINE = re.compile(r"'(do|then)' expected|malformed number|escape|<eol>|break|goto|label|vararg|digit|too (many|large|long|deep)|limit|overflow|levels")


def z8_error(src):
    try:
        luarun._runtime().compile(src + "\n")
        return None
    except luarun.luaz8.LuaError as e:
        return str(e)
    except UnicodeEncodeError:
        return None


def malformed(src):
    """why both parsers refuse the program, when it's a plain matter of grammar"""
    z = z8_error(src)
    if not z or FINE.search(z):
        return None
    try:
        plua.parse(src)
        return None
    except plua.LuaErr as e:
        if FINE.search(str(e)):
            return None
    except RecursionError:
        return None
    lines = {}
    try:
        toks = plua.lex(src)
    except plua.LuaErr:
        toks = None
    if toks is None:
        return z if re.search("unfinished|unterminated", z) and not re.search(r"\?|//|\\z", src) else None
    for t in toks:
        lines.setdefault(t.line, []).append(t.s)
        if t.s == "?" and t.t == "op" or re.search("[\\x10-\\x1d\\x7f]", t.s):
            return None
    for l in lines.values():
        if ("if" in l or "elseif" in l) and "then" not in l or "while" in l and "do" not in l:
            return None
        # (what follows could be the body of a shorthand)
        if l.count("if") + l.count("elseif") > l.count("then") or l.count("while") > l.count("do") or l.count("do") > l.count("while") + l.count("for") and "if" in l:
            return None
    return z


def program(rng, rec):
    src = p38.base(rng)
    if len(src) > 4000:
        src = src[:4000]
    for _ in range(4):
        mut = mutate.mutate(rng, src)
        if rng.random() < 0.1:
            mut = mut[:rng.randrange(len(mut) + 1)]
        if "\r" in mut or "\0" in mut or "#include" in mut or re.search(r"(?m)^__", mut):
            continue
        feed(rng, rec, mut, malformed(mut))


def feed(rng, rec, src, why, lang="pico8"):
    what = rng.choice(["lint", "minify", "minify", "unminify", "count", "safe", "rename"])
    flag = {"lint": ["--lint"], "minify": ["--minify"], "unminify": ["--unminify"], "count": ["--lint", "--count"], "safe": ["--minify-safe-only"], "rename": ["--minify", "--no-minify-consts", "--no-minify-lines"]}[what]
    with Scratch() as s:
        ext = "lua" if lang == "picotron" or rng.random() < 0.6 else "p8"
        inp = s.write("i." + ext, (p8_to_uni(src) if lang == "pico8" else src) + "\n" if ext == "lua" else mini.p8_text(src))
        outn = None if what == "lint" and rng.random() < 0.7 else "o." + rng.choice(["lua"] if lang == "picotron" else ["p8", "lua", "png", "rom", "js"][:4])
        args = [inp] + ([s.path(outn)] if outn else []) + flag
        rec.eval((src, what, outn, lang), nontrivial=why is not None)
        r = cli(args, lang=lang)
        rec.event("fed")
        desc = " ".join(map(os.path.basename, args))
        if r.crashed:
            if "RecursionError" in r.exc and re.search(r"(\W\s*){3000,}", src):
                rec.skip("too deep")
                return
            rec.violation("crash", f"{desc} crashes: {r.exc[-200:]}", src=src, args=args)
            return
        if why:
            rec.event("malformed")
            if r.rc == 0 or r.rc == 2 and "ompilation error" not in r.out + r.err:
                rec.violation("accepted", f"{desc} accepts a malformed program ({why[-80:]})", src=src, rc=r.rc, out=r.out[-300:])
                return
        if r.rc == 1:
            rec.event("compile_errors")
            m = re.search(r"i\.(?:lua|p8)(?:/main\.lua)?:(\d+):(\d+): (\S.*)", r.out + r.err)
            if not m:
                rec.violation("no-message", f"{desc} fails without saying where", src=src, **r.brief())
                return
            nl = src.count("\n") + 1 + (3 if ext == "p8" else 0)
            if not 1 <= int(m[1]) <= nl + 1:
                rec.violation("bad-position", f"{desc} reports line {m[1]} of {nl}", src=src, **r.brief())
                return
        elif r.rc not in (0, 2, 3):
            rec.violation("exit-code", f"{desc} exits with {r.rc}", src=src, **r.brief())
            return
        elif r.rc == 3 and not r.err.strip():
            rec.violation("no-message", f"{desc} fails without a message", src=src)
            return
        if r.rc in (1, 3) and outn and s.exists(outn):
            rec.violation("output-written", f"{desc} fails but writes an output", src=src, **r.brief())
        rec.event("rc%s" % r.rc)


def fragments(rng, rec):
    """short meaningless token sequences and unfinished constructs"""
    for _ in range(4):
        n = rng.choice([1, 2, 3, 4, 6])
        toks = [rng.choice(mutate.PIECES) for _ in range(n)]
        src = rng.choice(["", "a=", "f(", "x,y=", "for i=", "local x", "if a then ", "?", "return ", "a='", "[[", "--[[", "goto "]) + rng.choice(["", " ", " "]).join(toks)
        if "#include" in src or "\0" in src:
            continue
        feed(rng, rec, src, malformed(src))


def garbage(rng, rec):
    """text that isn't a program at all"""
    n = rng.choice([1, 2, 5, 20, 100])
    k = rng.random()
    if k < 0.4:
        src = "".join(chr(rng.randrange(1, 256)) for _ in range(n))
    elif k < 0.7:
        src = "".join(rng.choice(mutate.CHARS) for _ in range(n))
    else:
        src = "".join(rng.choice(mutate.PIECES + ["\\", "\\z", "'", "\"", "--[[", "[=", "]]", "]=]", "--[=[", "::", "<", "--preserve:", "--lint:", "--[[$rename::x]]", "--[[global]]", "--rename::", "--rename:", "--preserve:,,", "--lint: func", "--[[member-keys]]", "--[[language::lua]]", "--language::", "--[[const]]", "--[[keep]]", "--keep:"]) for _ in range(n // 4 + 1))
    src = src.replace("\r", "").replace("\0", "").replace("#include", "")
    if re.search(r"(?m)^__", src):
        return
    feed(rng, rec, src, malformed(src))


def picotron(rng, rec):
    src = "\n".join(rng.choice(p38.TRON) for _ in range(rng.choice([1, 3, 10])))
    mut = mutate.mutate(rng, src)
    if "\r" in mut or "\0" in mut:
        return
    feed(rng, rec, mut, None, lang="picotron")


def deep(rng, rec):
    """unfinished and finished nesting of any depth, and includes that include themselves"""
    n = rng.choice([50, 150, 400, 1000])
    x = rng.choice(["(", "{", "[", "a[", "f(", "do ", "if a then ", "function f() ", "not ", "-", "a=", "a.", "a..", "a and ", "if(a) ", "while(a) ", "repeat ", "a={b=", "--[[", "?", "::a", "elseif ", "end ", ")", "}", "local ", "return ", "return function() ", "a,", "for i=1,", "\"", "'", "[[", "\\", "goto a ", "if a then elseif "])
    src = rng.choice(["", "a=", "f("]) + x * n + rng.choice(["", "1", "a", "end", ")"])
    feed(rng, rec, src, z8_error(src) if x in ("(", "{", "[", "a[", "f(", "do ", "function f() ", "repeat ", ")", "}", "end ") and malformed(src) else None)


# ---------------------------------------------------------------- files

def corrupt(rng, data):
    """an altered copy of the bytes"""
    b = bytearray(data)
    for _ in range(rng.choice([1, 1, 1, 2, 5, 30])):
        k = rng.random()
        n = len(b)
        i = rng.choice([rng.randrange(n + 1), min(n, rng.randrange(40)), max(0, n - rng.randrange(40))])
        if k < 0.25:
            if i < n:
                b[i] ^= 1 << rng.randrange(8)
        elif k < 0.45:
            if i < n:
                b[i] = rng.choice([0, 255, rng.randrange(256), 10, 32, 48])
        elif k < 0.6:
            del b[i:i + rng.choice([1, 1, 2, 4, 50, 1000])]
        elif k < 0.75:
            b[i:i] = bytes(rng.choice([rng.randrange(256), 0, 48, 65]) for _ in range(rng.choice([1, 1, 2, 4, 50])))
        elif k < 0.9:
            del b[i:]
        else:
            j = rng.randrange(n + 1)
            b[i:i] = b[j:j + rng.choice([1, 4, 20, 300])]
    return bytes(b)


def text_corrupt(rng, text):
    lines = text.split("\n")
    for _ in range(rng.choice([1, 1, 2, 6])):
        if not lines:
            break
        i = rng.randrange(len(lines))
        k = rng.random()
        if k < 0.2:
            del lines[i]
        elif k < 0.3:
            lines.insert(i, rng.choice(lines))
        elif k < 0.45:
            lines.insert(i, rng.choice(["__gfx__", "__sfx__", "__lua__", "__map__", "__music__", "__label__", "__gff__", "__meta:x__", "__meta:__", "____", "__foo__", "__gfx__ ", "__GFX__", "version 999", "version x", "version", "version -1", "zz", "-->8", "pico-8 cartridge"]))
        elif k < 0.6:
            lines[i] = lines[i][:rng.randrange(len(lines[i]) + 1)]
        elif k < 0.7:
            lines[i] = lines[i] * 3
        elif k < 0.8:
            lines[i] = lines[i].upper()
        elif k < 0.9:
            j = rng.randrange(len(lines[i]) + 1)
            lines[i] = lines[i][:j] + rng.choice(["g", " ", "-", "é", "\x00", "\ufffd", "__", "ff", "0x", "\r"]) + lines[i][j + rng.randrange(2):]
        else:
            del lines[i:]
            lines = lines or [""]
    return "\n".join(lines)


def judge(rng, rec, s, r, args, outs, clean, name, detail, lang="pico8"):
    desc = f"{name}: {' '.join(a if a[:1] == '-' else os.path.basename(a.rstrip('/')) for a in args)}"
    if r.crashed:
        rec.event("internal_errors")
        if clean:
            rec.violation("crash", f"{desc} crashes: {r.exc[-220:]}", **detail)
            return
    elif r.rc == 0:
        rec.event("read")
    elif r.rc in (1, 3, 4):
        rec.event("refused")
        if not (r.err + r.out).strip():
            rec.violation("no-message", f"{desc} fails without a message", **detail)
            return
    else:
        rec.violation("exit-code", f"{desc} exits with {r.rc}", **detail)
        return
    if r.rc != 0 or r.crashed:
        left = [o for o in outs if s.exists(o)]
        if left:
            rec.violation("output-written", f"{desc} fails but writes {left}", **detail)
        return
    # what was written has to be sound
    for o in outs:
        if not s.exists(o):
            rec.violation("no-output", f"{desc} succeeds without an output", **detail)
            return
        if o.endswith("/") or "." not in o:
            continue
        r2 = cli([s.path(o), s.path("again." + o.split(".", 1)[1])], lang=lang)
        rec.event("reread")
        if (r2.crashed or r2.rc != 0) and name == "p8" and not detail["data"].startswith(("pico-8 cartridge", "__lua__")):
            rec.skip("p8 header lost: the file is code")
        elif lang == "picotron" and r2.rc == 3 and r2.err.strip():
            rec.event("reread_refused")   # (a damaged pod inside of the cart)
        elif r2.crashed or r2.rc != 0:
            rec.violation("unreadable-output", f"{desc} succeeds with an output that can't be read", again=r2.brief(), **detail)
            return


def cart_texts(rng, rec):
    m = p21.Model()
    m.code = rng.choice(["x=1", "-- a\n-- b\nprint(1)", p21.rand_code(rng, True)])
    m.rom = carts.rand_rom(rng)
    c = carts.Cart(m.code, m.rom, version=rng.choice([43, 8, 16]))
    c.label = carts.rand_label(rng) if rng.random() < 0.4 else None
    k = rng.random()
    lang = "pico8"
    if k < 0.6:
        text, ext = text_corrupt(rng, carts.write_p8(c, rng)), "p8"
    elif k < 0.75:
        tree = p26.tree(rng)
        text, ext, lang = text_corrupt(rng, p64.write_p64(tree, rng).decode("latin-1")), "p64", "picotron"
    else:
        with Scratch() as s:
            r = cli([s.write("i.p8", mini.p8_text(m.code[:500])), s.path("o." + ("url" if k < 0.9 else "clip"))])
            if r.rc != 0:
                return
            text, ext = open(s.path("o." + ("url" if k < 0.9 else "clip"))).read(), "url" if k < 0.9 else "clip"
        text = corrupt(rng, text.encode()).decode("latin-1")
    with Scratch() as s:
        data = text.encode("latin-1", "replace") if ext == "p64" else text.encode("utf8", "surrogatepass")
        inp = s.write("i." + ext, data)
        out = "o." + ("p64" if lang == "picotron" else rng.choice(["p8", "rom", "png", "lua"]))
        args = [inp, s.path(out)]
        rec.eval((data, out))
        r = cli(args, lang=lang)
        judge(rng, rec, s, r, args, [out], CLEAN.get(ext, False), ext, {"data": text[:6000] if ext != "clip" else ""}, lang)


CLEAN = {}


def binaries(rng, rec):
    k = rng.random()
    lang = "pico8"
    m = p25.rand_cart(rng)
    outs = ["p8", "rom", "lua"]
    if k < 0.25:
        kind = rng.choice(["rom", "tiny-rom", "png", "rom-code"])
        with Scratch() as s:
            r = cli([s.write("i.p8", carts.write_p8(carts.Cart(m.code if kind != "rom-code" else carts.rand_text(rng, rng.choice([100, 3000]), "words"), m.rom, version=43), rng)), s.path("o.bin"), "--format", kind.replace("-code", "")])
            if r.rc != 0:
                return
            data = open(s.path("o.bin"), "rb").read()
        if kind == "rom-code":
            # the compressed code
            c = bytearray(data)
            for _ in range(rng.choice([1, 2, 10])):
                c[rng.choice([rng.randrange(0x4300, 0x4310), rng.randrange(0x4300, 0x4400), rng.randrange(0x4300, 0x8000)])] = rng.choice([0, 255, rng.randrange(256)])
            data = bytes(c)
        else:
            data = corrupt(rng, data)
        name = {"rom": "i.rom", "rom-code": "i.rom", "tiny-rom": "i.rom", "png": "i.png"}[kind]
    elif k < 0.5:
        cls = rng.choice([p25.Js, p25.Pod])(rng)
        data = corrupt(rng, cls.build(rng, [("main.p8", p25.rom_of(m)), ("b.p8", p25.rom_of(m))][:rng.choice([1, 2])]))
        name, kind = "i" + cls.ext, cls.ext
    else:
        tree = p26.tree(rng)
        lang = "picotron"
        kind = rng.choice(["p64.rom", "p64.png", "p64"])
        data = corrupt(rng, {"p64.rom": p64.write_rom, "p64.png": p64.write_png, "p64": p64.write_p64}[kind](tree, rng))
        name = "i." + kind
        outs = ["p64", "p64.rom"]
    with Scratch() as s:
        inp = s.write(name, data)
        out = "o." + rng.choice(outs)
        q = rng.random()
        if q < 0.7:
            args, outl = [inp, s.path(out)], [out]
        elif q < 0.85:
            args, outl = [inp, "--list"], []
        else:
            args, outl = [inp, "--count"], []
        rec.eval((data, tuple(map(os.path.basename, args))))
        r = cli(args, lang=lang)
        judge(rng, rec, s, r, args, outl, False, kind, {"size": len(data), "data": data.decode("latin-1") if kind == "p64" else ""}, lang)


def pods_value(rng):
    return p27.rvalue(rng)


def pod_files(rng, rec):
    """pods inside of picotron carts"""
    st = p26.content(rng)
    data = corrupt(rng, pods.encode(pods_value(rng), rng) if rng.random() < 0.7 else st)
    with Scratch() as s:
        inp = s.path("cart")
        os.makedirs(inp)
        open(os.path.join(inp, "a.pod"), "wb").write(data)
        args = [inp + "/", s.path("o.p64")] + rng.choice([["-u"], ["--base64-pods"], [], ["--minify"]])
        rec.eval((data, tuple(args[2:])))
        r = cli(args, lang="picotron")
        judge(rng, rec, s, r, args, ["o.p64"], False, "pod", {"data": repr(data)[:2000]}, "picotron")


FAMILIES = [Family("programs", program, 1600, 30000, need=["malformed", "compile_errors"]),
            Family("fragments", fragments, 1500, 30000, need=["malformed"]),
            Family("garbage", garbage, 2500, 40000, need=["fed"]),
            Family("picotron", picotron, 1500, 20000, need=["fed"]),
            Family("deep", deep, 500, 5000, need=["malformed"]),
            Family("cart_texts", cart_texts, 1500, 20000, need=["refused", "read", "reread"]),
            Family("binaries", binaries, 1500, 25000, need=["refused", "read", "reread"]),
            Family("pod_files", pod_files, 800, 10000, need=["read"])]

if __name__ == "__main__":
    sys.exit(core.main(sys.modules[__name__]))
