"""C07: each disabled minification leaves its aspect of the code untouched."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, luagen, mini, plua, soup, spacing
from vlib.core import Family
from vlib.tool import cli, Scratch

PROP = "C07"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: an independent lexer/parser compares token stream, structure and layout of each output with its source"
RULE = "a case counts as distinct when the (program, options) pair is new and the output differs from the source"
ASSUMPTIONS = ["the independent lexer/parser follows PICO-8's syntax (cross-checked with z8lua by the other checks)"]

NO = lambda *xs: ["--no-minify-" + x for x in xs]
FOCI = mini.FOCI


def gen(rng, p8=True):
    if rng.random() < 0.65:
        src = soup.soup(rng, env=rng.random() < 0.2, p8=p8 and rng.random() < 0.6)
    else:
        src = luagen.program(rng, mode="safe", size=rng.choice([10, 30, 60]))
        if not p8:
            return None
    return src


def source(rng, rec, **kw):
    src = gen(rng)
    try:
        new = spacing.scramble(rng, src, comments=rng.choice([0, 0.1, 0.4]), **kw)
    except plua.LuaErr as e:
        rec.skip(f"generated program not valid: {str(e)[:20]}")
        return None
    if new is None:
        rec.skip("spacing changed the tokens")
    return new


def run(rec, t, args, what):
    r, code = t.run(*args)
    if r.crashed or r.rc not in (0, 2) or code is None:
        rec.violation("tool-crash" if r.crashed else "rejected", f"valid program refused under {' '.join(args)}", src=t.src, **r.brief())
        return None
    try:
        return code, plua.parse(code)
    except plua.LuaErr as e:
        rec.violation("invalid-output", f"{e} under {' '.join(args)}", src=t.src, out=code, args=args)
        return None


def texts(p):
    return [(t.t, t.s) for t in p.toks]


def exact(rec, src, a, b, code, args, what):
    """same tokens, same structure"""
    d = spacing.first_diff(texts(a), texts(b))
    if not d and spacing.shape(a) != spacing.shape(b):
        d = "structure " + spacing.first_diff(spacing.shape(a), spacing.shape(b))
    rec.event(what)
    rec.event("tokens_compared", len(a.toks))
    rec.eval((src, tuple(args)), nontrivial=code != src)
    if d:
        rec.violation(what, f"token sequence changed under {' '.join(args)}: {d}"[:300], src=src, out=code, args=args)
        return False
    return True


MINI = lambda rng: [rng.choice(["--minify", "--minify", "--minify-safe-only"])] + rng.choice(FOCI)


def tokens(rng, rec):
    """only whitespace & comments get minified: exact token sequence and structure"""
    src = source(rng, rec)
    if src is None:
        return
    a = plua.parse(src)
    with mini.Tool(src, rng.choice([43, 43, 41, 37])) as t:
        for _ in range(3):
            args = MINI(rng) + NO("rename", "consts", "tokens", "reorder")
            if rng.random() < 0.3:
                args += NO("lines")
            if rng.random() < 0.3:
                args += NO("spaces")
                if rng.random() < 0.5:
                    args += NO("comments")
            got = run(rec, t, args, "tokens")
            if got is None or not exact(rec, src, a, got[1], got[0], args, "exact"):
                return
    rec.sample(src[:300])


def gap(src, toks, i):
    """the text between token i-1 and token i, and whether there's a comment in it"""
    g = src[toks[i - 1].b:toks[i].a]
    return g, "--" in g or "//" in g


def breaks(g):
    """the line breaks of a gap that aren't inside a block comment"""
    toks, com = None, []
    plua.lex(g, com)
    for a, e, t in reversed(com):
        g = g[:a] + g[e:]
    return g.count("\n")


def layout(rng, rec):
    """lines / spaces: the line breaks, or all of the spacing, stay between unchanged tokens"""
    src = source(rng, rec)
    if src is None:
        return
    a = plua.parse(src)
    with mini.Tool(src) as t:
        for sw in ("lines", "spaces"):
            args = MINI(rng) + NO("consts", "tokens", "reorder", sw) + (NO("rename") if rng.random() < 0.6 else [])
            if sw == "spaces" and rng.random() < 0.4:
                args += NO("comments")
            got = run(rec, t, args, sw)
            if got is None:
                return
            code, b = got
            d = spacing.first_diff([x.t for x in a.toks], [x.t for x in b.toks])
            for i in range(1, len(a.toks) - 1):
                if d:
                    break
                ga, com = gap(src, a.toks, i)
                gb, _ = gap(code, b.toks, i)
                if bool(breaks(ga)) != bool(breaks(gb)) and not ("\n" in ga and not breaks(ga)):
                    d = f"line break before token {i} {a.toks[i].s!r}: {ga!r} became {gb!r}"
                elif sw == "spaces" and not com and ga != gb:
                    # (a space may be needed where none was before, once names change)
                    if not (ga == "" and gb == " " and "--no-minify-rename" not in args):
                        d = f"spacing before token {i} {a.toks[i].s!r}: {ga!r} became {gb!r}"
                rec.event("gaps_compared")
            rec.event(sw)
            rec.eval((src, tuple(args)), nontrivial=code != src)
            if d:
                rec.violation(sw, f"layout changed under {' '.join(args)}: {d}"[:300], src=src, out=code, args=args)
                return


# the tokens that token minification may drop, add, or exchange
DROP = {"(", ")", ";", ",", "then", "do", "end", "?", "print"}
SAME = {"!=": "~=", "^^": "~"}


def values(rng, rec):
    """token minification alone: same names, operators, constants, in the same order"""
    src = source(rng, rec)
    if src is None:
        return
    a = plua.parse(src)
    with mini.Tool(src, rng.choice([43, 43, 41, 37])) as t:
        for _ in range(2):
            names = rng.random() < 0.7
            args = MINI(rng) + NO("consts", "reorder") + (NO("rename") if names else [])
            got = run(rec, t, args, "values")
            if got is None:
                return
            code, b = got
            # (once names change, a name can be any name: only where it is gets compared. 'print' stays, as a builtin)
            d = spacing.first_diff(fold(a, names), fold(b, names))
            rec.event("values")
            rec.event("tokens_compared", len(a.toks))
            rec.eval((src, tuple(args)), nontrivial=code != src)
            if d:
                rec.violation("values", f"names, operators or constants changed under {' '.join(args)}: {d}"[:300], src=src, out=code, args=args)
                return


def fold(p, names):
    out = []
    toks = p.toks
    for i, t in enumerate(toks):
        s = t.s
        if t.t == "str":
            out.append(("str", t.val))
        elif t.t == "num":
            v = plua.numval(s)
            v = int(v) if v.denominator == 1 else round(float(v))
            v &= 0xffffffff
            # signs in front, if they're unary
            neg = []
            while out and out[-1][0] == "op" and out[-1][1] in "-~" and out[-1][2]:
                neg.append(out.pop()[1])
            for n in neg:
                v = (-v if n == "-" else ~v) & 0xffffffff
            out.append(("num", v))
        elif t.t == "name":
            if s != "print" and names:
                out.append(("name", s))
        elif t.t in ("op", "kw"):
            if s in DROP:
                continue
            p_ = toks[i - 1] if i else None
            unary = p_ is None or not (p_.t in ("num", "str", "name") or p_.s in (")", "]", "}", "...", "nil", "true", "false", "end"))
            out.append((t.t, SAME.get(s, s), unary and s in "-~"))
    return out


def switches(rng, rec):
    """rename alone / consts alone: nothing but the names / nothing but the spacing changes"""
    src = source(rng, rec)
    if src is None:
        return
    a = plua.parse(src)
    with mini.Tool(src) as t:
        # renaming changes nothing but names
        args = MINI(rng) + NO("consts", "tokens", "reorder")
        got = run(rec, t, args, "names")
        if got is None:
            return
        code, b = got
        k = lambda p: [(t.t, "" if t.t == "name" else t.s) for t in p.toks]
        d = spacing.first_diff(k(a), k(b))
        rec.event("rename_only")
        rec.eval((src, tuple(args)), nontrivial=code != src)
        if d:
            rec.violation("rename_only", f"more than names changed under {' '.join(args)}: {d}"[:300], src=src, out=code, args=args)
            return
        # without renaming, no new names appear, under any of the other minifications
        args = MINI(rng) + NO("rename") + (NO(rng.choice(["consts", "tokens", "reorder"])) if rng.random() < 0.5 else [])
        got = run(rec, t, args, "names")
        if got is None:
            return
        code, b = got
        count = lambda p: {s: n for s, n in __import__("collections").Counter(t.s for t in p.toks if t.t == "name").items()}
        ca, cb = count(a), count(b)
        folded = "--no-minify-consts" not in args
        for nm in set(ca) | set(cb):
            x, y = ca.get(nm, 0), cb.get(nm, 0)
            if y > x or (x > y and not folded and nm != "print"):
                rec.violation("names", f"{nm!r} occurs {x} times, then {y} times, under {' '.join(args)}"[:300], src=src, out=code, args=args)
                return
        rec.event("no_rename")
        rec.event("names_counted", sum(ca.values()))
        rec.eval((src, tuple(args)), nontrivial=code != src)


def picotron(rng, rec):
    src = soup.soup(rng, env=rng.random() < 0.2, p8=False)
    try:
        src = spacing.scramble(rng, src, comments=rng.choice([0, 0.1, 0.4]), slash=False)
    except plua.LuaErr:
        src = None
    if src is None:
        rec.skip("not valid")
        return
    a = plua.parse(src)
    with Scratch() as s:
        inp = s.write("a.lua", src)
        args = [rng.choice(["--minify", "--minify-safe-only"])] + NO("rename", "consts", "tokens", "reorder")
        if rng.random() < 0.3:
            args += NO(rng.choice(["lines", "spaces"]))
        r = cli([inp, s.path("o.lua")] + args, lang="picotron")
        code = s.read("o.lua").decode("latin-1") if s.exists("o.lua") else None
        if r.rc != 0 or code is None:
            rec.violation("rejected", f"valid program refused under {' '.join(args)}", src=src, **r.brief())
            return
        try:
            b = plua.parse(code)
        except plua.LuaErr as e:
            rec.violation("invalid-output", f"{e} under {' '.join(args)}", src=src, out=code, args=args)
            return
        exact(rec, src, a, b, code, args, "exact_picotron")


FAMILIES = [Family("tokens", tokens, 800, 50000, need=["exact", "tokens_compared"]),
            Family("layout", layout, 400, 25000, need=["lines", "spaces", "gaps_compared"]),
            Family("values", values, 400, 25000, need=["values"]),
            Family("switches", switches, 400, 25000, need=["rename_only", "no_rename"]),
            Family("picotron", picotron, 250, 10000, need=["exact_picotron"])]

if __name__ == "__main__":
    sys.exit(core.main(sys.modules[__name__]))
