"""C09: unminify changes only layout and is stable."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, luagen, luarun, mini, plua, soup, spacing
from vlib.core import Family
from vlib.tool import cli, Scratch

PROP = "C09"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: an independent parser compares structure and layout of the real unminified output with the source; VM traces; second run compared byte for byte"
RULE = "a case counts as distinct when the (program, options) pair is new and the output differs from the source"
ASSUMPTIONS = ["the independent parser follows PICO-8's syntax"]


def source(rng, p8=True):
    k = rng.random()
    if k < 0.55:
        src = soup.soup(rng, env=rng.random() < 0.2, p8=p8 and rng.random() < 0.8)
    else:
        src = luagen.program(rng, mode="safe", size=rng.choice([10, 30, 60]))
    return src


def tricky(rng):
    """token neighbourhoods that need care when spaces change"""
    e = lambda: rng.choice(["a", "b.c", "-a", "- -a", "- - -1", "~a", "~~a", "not a", "not -a", "-(-a)", "#a", "- -1", "a- -b", "a-~b", "1 ..a", "a..1", "a.. 1 ..b",
                            "(a)", "a[ [[x]]]", "a[ [=[x]=] ]", "{[ [[k]]]=1}", "f[[x]]", "f'x'", "f{}", "{}", "a.b:c()", "'x'", "function() end", "function(x) return x end",
                            "a and-b", "a or not b", "2^-3", "-2^2", "a//c\n", "a--c\n", "...", "@a", "%a", "$a", "a~b", "a^^b", "a\\b", "a<<1", "a>>>1", "#{}", "- #a", "#-a" if False else "#a",
                            "- --x\n a", "(f)(1)", "a!=b", "a~=b"])
    s = lambda d=0: rng.choice([
        lambda: f"a={e()}", lambda: f"a={e()};(f)()", lambda: f";;a={e()};", lambda: f"f({e()},{e()});(g or f)(1)", lambda: f"local x={e()};(f)(x)",
        lambda: f"if (a) b={e()}" if True else "", lambda: f"if (a) b=1 else c=2", lambda: f"while (a<1) a+=1", lambda: f"?{rng.choice(['a', '1,2', 'f(1)', chr(34) * 2])}",
        lambda: "if (a) ?b", lambda: "if (a) if (b) c=1 else d=2", lambda: "if (a) while (b) c()", lambda: f"if a then b={e()} elseif c then else d() end",
        lambda: f"if a do b={e()} end", lambda: "if (a) f() g()", lambda: "if (a) return", lambda: "while (a) do break end" if False else "while a do break end",
        lambda: f"for i=1,{e()} do b=i end", lambda: f"repeat local z={e()} until z", lambda: "::l%d::" % rng.randrange(10 ** 6), lambda: f"a.b+={e()}", lambda: "function m.n:o() end",
        lambda: "function q() return end", lambda: "local function r(...) return ... end", lambda: "do end", lambda: f"(f)({e()})", lambda: f"do (f)() end", lambda: f"do;(f)() end",
        lambda: "if (a) ;", lambda: f"if (a) b={{{e()},{e()}}}", lambda: "if(a)(b)=1" if False else "if (a) ;(f)()", lambda: "--c", lambda: "--[[c]]a=1", lambda: "//c", lambda: "--[[\nc]]",
        lambda: f"if (a) f(function() b={e()} end) c=1"])()
    out = []
    for _ in range(rng.choice([1, 2, 4, 10])):
        x = s()
        out.append(x)
        if "\n" in x or rng.random() < 0.8 or x[:2] in ("--", "//", "if", "wh") or x[0] == "?":
            out.append("\n")
        else:
            out.append(rng.choice([" ", ";", "; "]))
    return "".join(out)


def layout(src, out, indent, p, comments):
    """the first problem of the output's layout"""
    toks = p.toks
    ind = "\t" if indent == "tabs" else " " * indent
    for s, d in plua.blocks(p):
        if s.e <= s.a:
            continue
        t = toks[s.a]
        ls = out.rfind("\n", 0, t.a) + 1
        head = out[ls:t.a]
        if t.s == "(" and head.endswith(";"):
            head = head[:-1]
        if head.strip() or not comments and head != ind * d:
            if not (comments and ("--" in head or "//" in head or "]]" in head or "]=" in head)):
                return f"statement {out[t.a:t.a + 20]!r} at depth {d} is preceded by {head!r}"
        last = toks[s.e - 1]
        le = out.find("\n", last.b)
        tail = out[last.b:le if le >= 0 else len(out)]
        if tail.strip() and not (comments and tail.strip()[:2] in ("--", "//")):
            return f"statement {out[t.a:t.a + 20]!r} is followed by {tail[:30]!r} on its line"
    return None


def one(rng, rec, src, tron=False):
    comments = []
    try:
        a = plua.parse(src)
        plua.lex(src, comments)
    except plua.LuaErr as e:
        rec.skip(f"not valid: {str(e)[:20]}")
        return
    indent = rng.choice([None, 0, 1, 2, 4, "tabs"])
    args = ["--unminify"] + ([] if indent is None else ["--unminify-indent", str(indent)])
    with Scratch() as s:
        if tron:
            inp = s.write("in.lua", src)
            outn = "out.lua"
        else:
            inp = s.write("in.p8", mini.p8_text(src))
            outn = "out.p8"
        r = cli([inp, s.path(outn)] + args, lang="picotron" if tron else "pico8")
        read = lambda f: s.read(f).decode("latin-1") if tron else mini.p8_code(s.read(f).decode("utf8"))
        out = read(outn) if s.exists(outn) else None
        if r.crashed or r.rc != 0 or out is None:
            rec.violation("tool-crash" if r.crashed else "rejected", f"valid program refused under {' '.join(args)}", src=src, **r.brief())
            return
        rec.event("unminified")
        rec.eval((src, tuple(args)), nontrivial=out != src)
        try:
            c2 = []
            b = plua.parse(out)
            plua.lex(out, c2)
        except plua.LuaErr as e:
            rec.violation("invalid-output", f"{e}", src=src, out=out, args=args)
            return
        ca, cb = plua.canon(a), plua.canon(b)
        if ca != cb:
            rec.violation("structure", f"program differs: {spacing.first_diff(flat(ca), flat(cb))}"[:300], src=src, out=out, args=args)
            return
        rec.event("statements", len(plua.blocks(b)))
        if [x[2] for x in comments] != [x[2] for x in c2]:
            rec.violation("comments", f"comments differ: {spacing.first_diff([x[2] for x in comments], [x[2] for x in c2])}"[:300], src=src, out=out, args=args)
            return
        d = layout(src, out, 2 if indent is None else indent, b, bool(comments))
        if d:
            rec.violation("layout", d[:300], src=src, out=out, args=args)
            return
        # stable
        r = cli([s.path(outn), s.path("2" + outn)] + args, lang="picotron" if tron else "pico8")
        if not s.exists("2" + outn):
            rec.violation("rejected", "own output refused", src=src, out=out, **r.brief())
            return
        out2 = read("2" + outn)
        rec.event("second_runs")
        if out2 != out and not comments:
            rec.violation("unstable", f"unminifying again differs: {spacing.first_diff(out.split(chr(10)), out2.split(chr(10)))}"[:300], src=src, out=out, out2=out2, args=args)
            return
        if not tron and rng.random() < 0.15:
            x, y = luarun.run(src), luarun.run(out)
            rec.event("vm_pairs")
            if x.status != "limit" and y.status != "limit" and x.diff(y) and x.status != "syntax":
                rec.violation("behaviour", f"{x.diff(y)}"[:300], src=src, out=out, args=args)
                return
    rec.sample(src[:300])


def flat(c):
    out = []

    def f(x):
        if isinstance(x, tuple):
            out.append("(")
            for y in x:
                f(y)
            out.append(")")
        else:
            out.append(x)
    f(c)
    return out


def programs(rng, rec):
    src = source(rng)
    if rng.random() < 0.7:
        try:
            src = spacing.scramble(rng, src, comments=rng.choice([0, 0, 0.1, 0.3])) or src
        except plua.LuaErr:
            pass
    one(rng, rec, src)


def small(rng, rec):
    one(rng, rec, tricky(rng))


def minified(rng, rec):
    """unminifying what was minified"""
    src = source(rng)
    r, code = mini.transform(src, ["--minify"] + rng.choice(mini.FOCI))
    if code:
        one(rng, rec, code)


def picotron(rng, rec):
    one(rng, rec, soup.soup(rng, p8=False).replace("!=", "~="), tron=True)


FAMILIES = [Family("programs", programs, 1400, 25000, need=["unminified", "statements", "second_runs"]),
            Family("small", small, 5000, 60000, need=["unminified", "vm_pairs"]),
            Family("minified", minified, 800, 15000, need=["unminified"]),
            Family("picotron", picotron, 600, 8000, need=["unminified"])]

if __name__ == "__main__":
    sys.exit(core.main(sys.modules[__name__]))
