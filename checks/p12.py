"""C12: the rename map matches the renaming that was done."""
import os, re, sys
from collections import Counter
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, luagen, luarun, mini, plua, soup
from vlib.binding import aligned, Bad
from vlib.core import Family
from vlib.tool import cli, Scratch, p8_to_uni
import p05, p06

PROP = "C12"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: an independent resolver derives the renaming from source and output token by token and compares it with the written map"
RULE = "a case counts as distinct when the (program, options) pair is new and the map has at least one line"
ASSUMPTIONS = ["identifiers kept on purpose (preserved, builtin, implicit) need not be listed; all others are"]
BUILTINS = p06.BUILTINS | p06.CALLBACKS | set(luagen.BUILTINS_USED)
LINE = re.compile(r"(local|global|member|label) (\S+) <- (\S+)")


def expected(model, a, b):
    """Counter of (kind, new, old), dict of kept names"""
    want, ents, kept = Counter(), set(), set()
    for i, t in enumerate(a.toks):
        if t.t != "name":
            continue
        w = model.classify(i)
        o, n = t.s, b.toks[i].s
        if w == "keep":
            kept.add(n)
            continue
        if w[0] == "fixed":
            r = model.ident(i)
            ent = ("global", t.s) if ("global", t.s) in model.ren and model.ren["global", t.s] == n and r[0] != "locbuiltin" else ("local", r[1]) if r[0] == "locbuiltin" else r
        else:
            ent = w
        kind = {"locbuiltin": "local"}.get(ent[0], ent[0])
        if ent in ents:
            continue
        ents.add(ent)
        want[(kind, n, o)] += 1
    return want, kept


def parse_map(rec, text, src, args):
    got = Counter()
    for l in text.split("\n"):
        if not l and not text.strip():
            continue
        m = LINE.fullmatch(l)
        if not m:
            rec.violation("format", f"bad line {l!r}", src=src, args=args)
            return None
        got[(m[1], m[2], m[3])] += 1
    return got


def uni(c):
    return Counter({(k, p8_to_uni(n), p8_to_uni(o)): v for (k, n, o), v in c.items()})


def run_tool(rec, src, args, tron=False):
    with Scratch() as s:
        ext = "lua" if tron else "p8"
        inp = s.write("in." + ext, src if tron else mini.p8_text(src))
        r = cli([inp, s.path("out." + ext), "--rename-map", s.path("map")] + args, lang="picotron" if tron else "pico8")
        if r.crashed or r.rc != 0 or not s.exists("out." + ext) or not s.exists("map"):
            rec.violation("tool-crash" if r.crashed else "rejected", f"valid program refused under {' '.join(args)}", src=src, **r.brief())
            return None, None
        out = s.read("out." + ext)
        out = out.decode("latin-1") if tron else mini.p8_code(out.decode("utf8"))
        return out, s.read("map").decode("utf8")


def check(rec, src, args, rules, builtins, locals_, tron=False):
    comments = []
    try:
        p = plua.parse(src)
        plua.lex(src, comments)
    except plua.LuaErr as e:
        rec.skip(f"not valid: {str(e)[:20]}")
        return
    out, text = run_tool(rec, src, args, tron)
    if out is None:
        return
    got = parse_map(rec, text, src, args)
    if got is None:
        return
    try:
        a, b = aligned(src, out)
    except (Bad, plua.LuaErr) as e:
        rec.violation("structure", f"{e}"[:300], src=src, out=out, args=args)
        return
    model = p06.Model(src, rules, True, builtins, locals_, p, comments)
    want, kept = expected(model, a, b)
    if not tron:
        want = uni(want)
    for k in want:
        rec.event("expected_" + k[0], want[k])
    # labels/locals that are resolved as one entity by the tool but unused ones too must match exactly
    if got != want:
        miss, extra = want - got, got - want
        rec.violation("map", f"missing {list(miss.items())[:3]}, unexpected {list(extra.items())[:3]} under {' '.join(args)}"[:400], src=src, out=out, args=args, map=text)
    rec.eval((src, tuple(args)), nontrivial=bool(got))
    rec.sample([args, text[:200]])


def plain(rng, rec):
    k = rng.random()
    if k < 0.75:
        src = soup.soup(rng, env=rng.random() < 0.35, many=rng.random() < 0.4)
    else:
        src = luagen.program(rng, mode="safe", size=rng.choice([20, 40]))
    R = p06.Rules()
    args = ["--minify"] + rng.choice(mini.FOCI) + p05.ONLY_RENAME
    if rng.random() < 0.2:
        args.append("--rename-members-as-globals")
        R.as_globals = True
    elif rng.random() < 0.15:
        args.append("--rename-safe-only")
        R.add("*.*")
        if "_ENV" in src:
            R.add("*")
    check(rec, src, args, R, set(BUILTINS), set(luarun.LOCALS))


def hinted(rng, rec):
    src = p06.Gen(rng, 1).program()
    rules = p06.rand_rules(rng) if rng.random() < 0.5 else []
    if p06.ambiguous(rules):
        return
    R = p06.Rules()
    for r in rules:
        R.add(r)
    args = ["--minify"] + rng.choice(mini.FOCI) + p05.ONLY_RENAME
    if rules:
        args += ["--preserve", ",".join(rules)]
    check(rec, src, args, R, set(BUILTINS), set(luarun.LOCALS))


def picotron(rng, rec):
    src = soup.soup(rng, env=rng.random() < 0.3, many=rng.random() < 0.3, p8=False).replace("!=", "~=")
    R = p06.Rules()
    for m in p05.TRON_MEMBERS:
        R.add("*." + m)
    check(rec, src, ["--minify"] + p05.ONLY_RENAME, R, set(p05.TRON_BUILTINS) | {"_init", "_update", "_draw"}, set(), tron=True)


def full(rng, rec):
    """everything enabled: each name of the output is either listed or kept, and listed names come from the source"""
    src = soup.soup(rng, many=rng.random() < 0.3) if rng.random() < 0.6 else luagen.program(rng, mode="safe", size=30)
    args = mini.rand_config(rng, rng.random() < 0.2)
    norename = "--no-minify-rename" in args
    try:
        p = plua.parse(src)
    except plua.LuaErr:
        return
    out, text = run_tool(rec, src, args)
    if out is None:
        return
    got = parse_map(rec, text, src, args)
    if got is None:
        return
    if norename and got:
        rec.violation("map", "the map isn't empty though nothing was renamed", src=src, args=args, map=text)
        return
    try:
        b = plua.parse(out)
    except plua.LuaErr as e:
        rec.violation("structure", f"{e}", src=src, out=out, args=args)
        return
    rec.eval((src, tuple(args)), nontrivial=bool(got))
    new = {}
    for k, n, o in got:
        new.setdefault(k, set()).add(n)
    new.setdefault("local", set())
    names = {p8_to_uni(t.s) for t in p.toks if t.t == "name"} | {"print"}
    for k, n, o in got:
        if o not in names:
            rec.violation("map", f"{k} {o!r} isn't in the source", src=src, args=args, map=text)
            return
    mixed = any(t.s == "_ENV" for t in p.toks) or "--rename-members-as-globals" in args
    for i, t in enumerate(b.toks):
        if t.t != "name":
            continue
        r = b.refs[i]
        n = p8_to_uni(t.s)
        rec.event("output_names")
        kinds = {"member": ("member", "global") if mixed else ("member",), "global": ("global", "local")}.get(r[0], (r[0],))
        if not any(n in new.get(k, ()) for k in kinds) and n not in names:
            rec.violation("map", f"{r[0]} {n!r} of the output is neither listed nor kept", src=src, out=out, args=args, map=text)
            return


FAMILIES = [Family("plain", plain, 1500, 50000, need=["expected_local", "expected_global", "expected_member", "expected_label"]),
            Family("hinted", hinted, 2500, 80000, need=["expected_local", "expected_global", "expected_member"]),
            Family("picotron", picotron, 500, 15000, need=["expected_local"]),
            Family("full", full, 700, 20000, need=["output_names"])]

if __name__ == "__main__":
    sys.exit(core.main(sys.modules[__name__]))
