"""C10: minified code never needs a newer PICO-8 than the cart's version."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import carts, core, luagen, mini, plua, soup
from vlib.core import Family
from vlib.tool import cli, Scratch

PROP = "C10"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: an independent parser counts version-dependent syntax in each output against its source; the recorded version is read independently"
RULE = "a case counts as distinct when the (program, version, options) triple is new and the output differs from the source"
ASSUMPTIONS = ["the versions in which PICO-8 gained the syntax are those of its change log: xor as '~' 0.2.5 (37), levelled long strings 0.2.5e (40), 'do' for 'then' and nested shorthands 0.2.6b (42)"]

NAMES = {28: "v0.2.0", 29: "v0.2.1", 30: "v0.2.2", 31: "v0.2.2b", 32: "v0.2.2c", 33: "v0.2.3", 34: "v0.2.4", 35: "v0.2.4b", 36: "v0.2.4c", 37: "v0.2.5",
         38: "v0.2.5c", 39: "v0.2.5e", 40: "v0.2.5f", 41: "v0.2.5g", 42: "v0.2.6b", 43: "v0.2.7"}
SINCE = {"then_do": 42, "nested_short": 42, "inline_short": 42, "xor_tilde": 37, "levelled_string": 40}


def features(src):
    p = plua.parse(src)
    T = p.toks
    f = dict.fromkeys(SINCE, 0)

    def walk(n, inshort, own=None):
        if n.k in ("if", "while", "print") and getattr(n, "short", True):
            if inshort:
                f["nested_short"] += 1
            if n.k != "print":
                if n.e < len(T) and T[n.e].t != "eof" and not T[n.e].nl:
                    f["inline_short"] += 1
                inshort = True
        if n.k == "binop" and n.op == "~":
            f["xor_tilde"] += 1
        for c in plua.children(n):
            walk(c, inshort)
    for n in p.root.body:
        walk(n, False)
    # 'do' in place of 'then': ifs are the only users of 'do' besides while/for/do
    want = 0
    for n in p.root.body:
        for x in plua.walk(n):
            if x.k in ("fornum", "forin", "do") or x.k == "while" and not x.short:
                want += 1
    f["then_do"] = sum(t.t == "kw" and t.s == "do" for t in T) - want
    f["levelled_string"] = sum(t.t == "str" and src[t.a:t.a + 2] == "[=" for t in T)
    ops = {t.s for t in T if t.t == "op"}
    return f, ops


def dense(rng):
    """small programs in which the version matters a lot"""
    v = lambda: rng.choice("abcd")
    strs = ["'" + "\\\\" * 7 + "]]x'", "']]'", "'a]]b'", "'x]'", "'x]]'", "']=]'", "']]]=]'", "'a\"\\'b'", "'\\\\\\\\a]]'", "'\\n]]\\n\\n'", "[[a\\b]]", "'\\\\\\\\]\\\\'", "\"'\\\"]]'\\\"'\"", "'a'..']]'", "'a\\\\\\\\b'..'\\\\]'"]
    e = lambda d=0: rng.choice([v, v, lambda: str(rng.randrange(99)), lambda: rng.choice(strs), lambda: f"{v()}^^{v()}", lambda: f"{v()}^^{rng.randrange(99)}", lambda: "5^^3",
                                lambda: f"({e()})^^{v()}" if d < 3 else v(), lambda: f"~{v()}", lambda: f"bxor({v()},{v()})", lambda: f"{v()}!={v()}",
                                lambda: f"{v()}~{v()}" if rng.random() < .05 else v()])()
    c = lambda: rng.choice([v, lambda: f"{v()}=={e()}", lambda: f"not {v()}", lambda: "true", lambda: "false", lambda: "1==1"])()

    def block(d):
        return " ".join(stmt(d + 1) for _ in range(rng.choice([1, 1, 1, 2, 3]) if d else rng.choice([2, 5])))

    def simple():
        return rng.choice([lambda: f"{v()}={e()}", lambda: f"print({e()})", lambda: f"{v()}({e()})", lambda: f"{v()}^^={e()}", lambda: f"{v()}={v()}^^{e()}", lambda: f"{v()}={v()}+{e()}",
                           lambda: f"local {v()}={e()}", lambda: f"f=function({v()}) {block(2)} end" if rng.random() < 0.4 else "g()"])()

    def stmt(d):
        if d > 3:
            return simple()
        return rng.choice([simple, simple, lambda: f"if {c()} then {block(d)} end", lambda: f"if {c()} then {block(d)} else {block(d)} end", lambda: f"if {c()} then {block(d)} elseif {c()} then {block(d)} else {block(d)} end",
                           lambda: f"while {c()} do {block(d)} end", lambda: f"do {block(d)} end", lambda: f"for {v()}=1,3 do {block(d)} end", lambda: f"repeat {block(d)} until {c()}",
                           lambda: f"\nif ({c()}) {simple1()}\n", lambda: f"\nif ({c()}) {simple1()} else {simple1()}\n", lambda: f"\nwhile ({c()}) {simple1()}\n", lambda: f"\n?{e()}\n",
                           lambda: f"\nif ({c()}) if ({c()}) {simple1()}\n" if rng.random() < .1 else simple(), lambda: f"if {c()} do {block(d)} end" if rng.random() < .1 else simple(),
                           lambda: f"function {v()}({v()}) {block(d)} end"])()

    def simple1():
        while True:
            x = simple()
            if "\n" not in x:
                return x
    return block(0)


def pick_version(rng):
    return rng.choice([*range(28, 44), 36, 37, 39, 40, 41, 42, 41, 41, 42, 16, 8, 5, 0, 44 if rng.random() < .2 else 41])


def one(rng, rec, src):
    try:
        fa, opa = features(src)
    except plua.LuaErr as e:
        rec.skip(f"not valid: {str(e)[:20]}")
        return
    v = pick_version(rng)
    args = mini.rand_config(rng, rng.random() < 0.3)
    with Scratch() as s:
        # how the version is declared
        how = rng.choice(["header", "header", "raw", "name", "png"])
        if how == "name" and v not in NAMES:
            how = "raw"
        other = pick_version(rng)
        if how == "png":
            inp0 = s.write("a.p8", mini.p8_text(src, v))
            r = cli([inp0, s.path("in.png")])
            if not s.exists("in.png"):
                rec.skip("does not fit a png")
                return
            inp = s.path("in.png")
        else:
            inp = s.write("in.p8", mini.p8_text(src, v if how == "header" else other))
        if how == "raw":
            args = args + ["--output-version", str(v)]
        elif how == "name":
            args = args + ["--output-version", NAMES[v]]
        r = cli([inp, s.path("out.p8")] + args)
        if r.crashed or r.rc != 0 or not s.exists("out.p8"):
            rec.violation("tool-crash" if r.crashed else "rejected", f"valid program refused under {' '.join(args)}", src=src, **r.brief())
            return
        text = s.read("out.p8").decode("utf8")
    out = mini.p8_code(text)
    rec.event("outputs")
    rec.event("how_" + how)
    rec.eval((src, v, tuple(args)), nontrivial=out != src)
    m = re.search(r"^version (\d+)$", text, re.M)
    if not m or int(m[1]) != v:
        rec.violation("version", f"version {m and m[1]} recorded instead of {v} ({how})", src=src, args=args)
        return
    try:
        fb, opb = features(out)
    except plua.LuaErr as e:
        rec.violation("invalid-output", f"{e}", src=src, out=out, args=args, version=v)
        return
    for k, since in SINCE.items():
        if v < since:
            rec.event("checked_" + k)
            if fb[k] > fa[k]:
                rec.violation("newer-syntax", f"{k} used {fb[k]} times (source {fa[k]}), the cart's version is {v} ({how}), args {' '.join(args)}", src=src, out=out, args=args, version=v)
                return
        elif fb[k] > fa[k]:
            rec.event("used_" + k)
    new = opb - opa - {"?", "~=", ";", ",", "-", "~", "(", ")", "=", "."} - ({o + "=" for o in opa} | {o + "=" for o in ("+", "-", "*", "/", "..")})
    if new:
        rec.violation("new-operators", f"operators {sorted(new)} not in the source", src=src, out=out, args=args, version=v)
    rec.sample([v, src[:200], out[:200]])


def small(rng, rec):
    one(rng, rec, dense(rng))


def programs(rng, rec):
    k = rng.random()
    one(rng, rec, soup.soup(rng) if k < 0.6 else luagen.program(rng, mode="safe", size=rng.choice([10, 30])))


def recorded(rng, rec):
    """versions given on the command line or in the cart are recorded and reported"""
    v = rng.choice(list(range(0, 60)) + list(NAMES) * 2)
    latest = max(NAMES)
    with Scratch() as s:
        src = "a=1"
        orig = rng.choice([v, *NAMES])
        inp = s.write("in.p8", mini.p8_text(src, orig))
        mode = rng.choice(["raw", "name", "update", "keep", "badname", "between"])
        args, want = [], None
        if mode == "raw":
            args, want = ["--output-version", str(v)], v
        elif mode == "name":
            want = rng.choice(list(NAMES))
            args = ["--output-version", NAMES[want]]
        elif mode == "update":
            args, want = ["--update-version"], latest
        elif mode == "keep":
            want = orig
        elif mode == "badname":
            args = ["--output-version", rng.choice(["v0.2", "0.2.5", "v0.1.12", "v9.9.9", "v0.2.9", "latest", "v0.2.5bb", "vx", ""])]
        else:   # exists, but shares its id with an earlier version
            n, want = rng.choice([("v0.2.1b", 29), ("v0.2.5d", 38), ("v0.2.6", 41), ("v0.2.0i", 28), ("v0.2.6c", 42)])
            args = ["--output-version", n]
        fmt = rng.choice(["p8", "p8", "png", "rom"])
        r = cli([inp, s.path("out." + fmt)] + args)
        rec.event("recorded_" + mode)
        rec.eval((orig, fmt, tuple(args)), nontrivial=bool(args))
        bad = lambda what: rec.violation("recording", what, orig=orig, args=args, fmt=fmt, **r.brief())
        if mode == "badname":
            if r.crashed or r.rc == 0 or s.exists("out." + fmt):
                bad(f"unknown version {args} not refused")
            return
        if r.crashed or r.rc != 0 or not s.exists("out." + fmt):
            bad("refused")
            return
        data = s.read("out." + fmt)
        if fmt == "p8":
            m = re.search(rb"^version (\d+)$", data, re.M)
            if not m or int(m[1]) != want:
                bad(f"version {m and m[1]} instead of {want}")
        elif fmt == "png":
            b = carts.image_bytes(carts.png_decode(data)[-1] if isinstance(carts.png_decode(data), tuple) else carts.png_decode(data))
            if b[0x8000] != want & 255:
                bad(f"version byte {b[0x8000]} instead of {want}")
            if want in NAMES and "v%d.%d.%d" % tuple(b[0x8001:0x8004]) + "abcdefghij"[b[0x8005]].replace("a", "") != NAMES[want]:
                bad(f"version bytes {list(b[0x8001:0x8006])} instead of {NAMES[want]}")
        if fmt in ("p8", "png") and want in NAMES:
            r = cli([s.path("out." + fmt), "--version"])
            lines = r.out.split("\n")
            if r.crashed or lines[0] != f"version: {NAMES[want]}" or not lines[1].startswith(f"raw version: {want} "):
                bad(f"--version printed {r.out[:100]!r}, expected {NAMES[want]} / {want}")


FAMILIES = [Family("small", small, 9000, 150000, need=["outputs", "checked_then_do", "used_then_do", "used_nested_short", "checked_nested_short", "checked_inline_short", "checked_xor_tilde", "used_xor_tilde",
                                                        "checked_levelled_string", "used_levelled_string", "how_png", "how_name"]),
            Family("programs", programs, 700, 15000, need=["outputs"]),
            Family("recorded", recorded, 600, 10000, need=["recorded_" + x for x in ("raw", "name", "update", "keep", "badname", "between")])]

if __name__ == "__main__":
    sys.exit(core.main(sys.modules[__name__]))
