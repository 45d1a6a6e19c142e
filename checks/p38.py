"""C38: every valid program is accepted, and is unchanged when nothing is asked for."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, luagen, luarun, mini, mutate, plua, soup, spacing
from vlib.core import Family
from vlib.tool import cli, Scratch, p8_to_uni
import p09, p35

PROP = "C38"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: the z8lua compiler is the oracle for which programs are valid; the real tool has to accept each of them, and to write it back byte for byte"
RULE = "a case counts as distinct when the program is new"
ASSUMPTIONS = ["z8lua accepts what PICO-8 accepts", "what a shorthand is when its condition goes on after the closing parenthesis, e.g. if (a) 'x' b=1, isn't specified (z8lua and the tool differ)",
               "the print shorthand is a statement (PICO-8's parser happens to accept it inside expressions as well)",
               "characters 16..29 and 127 aren't letters in PICO-8 (they are in z8lua)",
               "NUL and CR characters cannot be part of code"]


def valid(src):
    try:
        luarun._runtime().compile(src + "\n")
        return True
    except luarun.luaz8.LuaError:
        return False
    except UnicodeEncodeError:
        return False


def odd_shorthand(src):
    try:
        plua.parse(src)
        return False
    except plua.LuaErr:
        return True


def print_in_expr(src):
    """? used as an expression instead of a statement"""
    try:
        toks = plua.lex(src)
    except plua.LuaErr:
        return True
    return any(t.s == "?" and t.t == "op" and (p.t == "op" and p.s not in (")", "]", "}", ";", "::", "...") or p.t == "kw" and p.s in ("return", "and", "or", "not", "in", "until", "if", "while", "elseif", "local", "goto"))
               for p, t in zip(toks, toks[1:]))


def base(rng):
    k = rng.random()
    if k < 0.4:
        src = soup.soup(rng, env=rng.random() < 0.3)
    elif k < 0.6:
        src = luagen.program(rng, mode=rng.choice(["safe", "safe", "full"]) if False else "safe", size=rng.choice([6, 20]))
    elif k < 0.8:
        src = p35.names_program(rng)
    else:
        src = p09.tricky(rng)
    if rng.random() < 0.4:
        try:
            src = spacing.scramble(rng, src, comments=rng.choice([0, 0.2, 0.4])) or src
        except plua.LuaErr:
            pass
    return src.replace("\r", " ").replace("\0", " ").replace("#include", "#imclude")


def check(rng, rec, src, p8=True, lang="pico8"):
    """the tool accepts and keeps a valid program"""
    rec.eval((src, lang))
    with Scratch() as s:
        ext = "lua" if lang == "picotron" or rng.random() < 0.5 else "p8"
        text = src if lang == "picotron" else p8_to_uni(src)
        inp = s.write("i." + ext, text + "\n" if ext == "lua" else mini.p8_text(src))
        for what in rng.sample(["lint", "same", "minify", "unminify", "count"], 2):
            out = s.path("o." + ext)
            if what == "lint":
                args = [inp, "--lint", "--no-lint-fail"]
            elif what == "same":
                args = [inp, out]
            elif what == "count":
                # (parses the code without changing anything)
                args = [inp, out, "--count"] + rng.choice([["--lint", "--no-lint-fail"], []])
            else:
                args = [inp, out, "--" + what]
            r = cli(args, lang=lang)
            rec.event("accepted_" + what)
            if r.crashed:
                rec.violation("crash", f"--{what} crashed on a valid program: {r.exc[-200:]}", src=src, args=args)
                return
            if r.rc != 0 and "or shorthand required" in r.out + r.err and odd_shorthand(src):
                rec.skip("shorthand whose condition isn't just in parentheses")
                return
            if r.rc != 0 and "invalid character" in r.out + r.err and re.search("[\x10-\x1d\x7f]", src):
                rec.skip("control characters in identifiers")
                return
            if r.rc == 1 and print_in_expr(src):
                rec.skip("? inside an expression")
                return
            if r.rc != 0:
                rec.violation("rejected", f"--{what} refused a valid program", src=src, **r.brief())
                return
            if what in ("same", "count"):
                rec.event("kept")
                got = open(out, encoding="utf8", newline="").read()
                if ext == "p8":
                    if mini.p8_code(got) not in (src, src + "\n"):
                        rec.violation("changed", "the code changed though nothing was asked for", src=src, out=got)
                        return
                elif got.rstrip("\n") != text.rstrip("\n"):
                    rec.violation("changed", "the code changed though nothing was asked for", src=src, out=got)
                    return
    rec.sample(src[:200])


def programs(rng, rec):
    src = base(rng)
    if not valid(src):
        rec.skip("generated program not valid")
        return
    check(rng, rec, src)


def mutants(rng, rec):
    """valid neighbours of programs"""
    src = base(rng)
    if len(src) > 3000:
        src = src[:src.rfind("\n", 0, 3000) + 1] or src[:3000]
    for _ in range(12):
        mut = mutate.mutate(rng, src)
        if "\r" in mut or "\0" in mut or "#include" in mut or re.search(r"(?m)^__", mut):
            continue
        rec.event("candidates")
        if mut != src and valid(mut):
            check(rng, rec, mut)
            if rng.random() < 0.7:
                src = mut   # (walk further)
    

def fragments(rng, rec):
    """short sequences of tokens, most of them unusual"""
    for _ in range(60):
        n = rng.choice([2, 3, 4, 5, 6])
        toks = [rng.choice(mutate.PIECES) for _ in range(n)]
        src = rng.choice(["", "a=", "a=1", "f(", "x,y=", "for i=", "local x", "if a then ", "?", "return "]) + rng.choice(["", " ", " "]).join(toks) + rng.choice(["", "", ")", " end", "=1", "()"])
        if "\r" in src or "\0" in src or "#include" in src or re.search(r"(?m)^__", src):
            continue
        rec.event("candidates")
        if valid(src):
            check(rng, rec, src)
            return
    rec.skip("no valid fragment found")


def literals(rng, rec):
    def digits(cs, n):
        return "".join(rng.choice(cs) for _ in range(n))
    def num():
        k = rng.random()
        n, m = rng.choice([0, 1, 2, 5, 12]), rng.choice([0, 1, 3, 9])
        d = rng.choice(["", ".", "."])
        if k < 0.4:
            return digits("0123456789", n) + d + digits("0123456789", m)
        if k < 0.7:
            return rng.choice(["0x", "0X"]) + digits("0123456789abcdefABCDEF", n) + d + digits("0123456789abcdefABCDEF", m)
        return rng.choice(["0b", "0B"]) + digits("01", n) + d + digits("01", m)
    def string():
        k = rng.random()
        body = "".join(rng.choice([lambda: chr(rng.choice([rng.randrange(32, 127), rng.randrange(128, 256), rng.randrange(1, 32)])), lambda: rng.choice(["\\n", "\\\\", "\\\"", "\\'", "\\a", "\\b", "\\t", "\\\n", "\\z \n\t ", "\\*", "\\#", "\\-", "\\|", "\\+", "\\^"]),
                                   lambda: "\\%d" % rng.randrange(256), lambda: "\\%03d" % rng.randrange(256), lambda: "\\x%02x" % rng.randrange(256), lambda: rng.choice("[]=-/"), lambda: "--", lambda: "]]"])() for _ in range(rng.choice([0, 1, 3, 10])))
        body = body.replace("\r", "").replace("\0", "")
        if k < 0.75:
            q = rng.choice("'\"")
            return q + body + q
        eq = "=" * rng.choice([0, 0, 1, 3])
        return f"[{eq}[{body}]{eq}]"
    out = []
    for _ in range(rng.choice([1, 3, 8])):
        x = rng.choice([num, string])()
        one = rng.choice(["a={}", "a= {} ", "a={}+{}", "f({})", "a={{{}}}", "a={}..{}", "a={} b={}", "a=-{}", "a=~{}", "a[ {}]=1", "if a=={} then end", "f{}", "?{}", "a={}or {}", "return {}", "a={{[ {}]={}}}", "if (a) b={}", "a=1 ..{}"])
        one = one.format(*[x if i == 0 else rng.choice([num, string])() for i in range(2)])
        if valid(one):
            out.append(one)
    src = "\n".join(o for i, o in enumerate(out) if not o.startswith("return") or i == len(out) - 1)
    if not src or not valid(src) or re.search(r"(?m)^__", src) or "#include" in src:
        rec.skip("not valid")
        return
    check(rng, rec, src)


def extremes(rng, rec):
    """nesting up to what the compiler allows, and lists and chains of any length"""
    deep, long_ = rng.choice([20, 90, 150, 185]), rng.choice([200, 700, 1500])
    n = deep
    m = long_
    forms = [lambda: "a=" + "(" * n + "1" + ")" * n, lambda: "a=" + "{" * n + "1" + "}" * n, lambda: "do " * n + "end " * n, lambda: "a=" + "function() return " * n + "1" + " end" * n,
             lambda: "a=" + rng.choice(["not ", "- ", "~", "#"]) * n + "b", lambda: "a=" + rng.choice(["b^", "b..", "b..1 .."]) * (n // 2) + "1", lambda: "if a then " * n + "end " * n, lambda: "while a do " * n + "end " * n,
             lambda: "repeat " * n + "until a " * n, lambda: "for i=1,2 do " * n + "end " * n, lambda: "a=" + "b[" * n + "1" + "]" * n, lambda: "f(" * n + ")" * n, lambda: "if (a) " * n + "b=1",
             lambda: "a=b" + rng.choice(["+b", "*b", " and b", " or b", "<b", "==b", "<<b", "^^b"]) * m, lambda: "a=b" + rng.choice(["()", ".c", "[1]", "{}", "'x'", ".c:d()"]) * m, lambda: "if a then " + "elseif b then c=1 " * m + "else end",
             lambda: "a={" + rng.choice(["1,", "b=1,", "[2]=3;", "{},"]) * m + "}", lambda: "f(" + "a," * 200 + "a)", lambda: "\n" * m + "a=1", lambda: ";" * m, lambda: "a=1 " * m, lambda: "--" + "x" * m * 10 + "\na=1", lambda: "a='" + "x" * m * 10 + "'",
             lambda: "local " + ",".join("a%d" % i for i in range(150)), lambda: "".join("::l%d:: goto l%d " % (i, i) for i in range(m // 5)), lambda: "a.b" * 1 + ".c" * m + "=1", lambda: "?" + "a," * 150 + "a", lambda: "a=" + "x" * m * 5,
             lambda: "a=" + "0" * m + "1", lambda: "a=0." + "1" * m, lambda: "a=[" + "=" * m + "[x]" + "=" * m + "]", lambda: "--[" + "=" * m + "[x]" + "=" * m + "]a=1"]
    src = forms[rng.index % len(forms)]()
    if not valid(src):
        rec.skip("beyond the compiler's limits")
        return
    rec.event("extremes")
    check(rng, rec, src)


TRON = ["local x <const> = 1", "local f <close> = nil", "local a <const>, b = 1, 2", "a = 1 // 2", "a //= 3", "a = b ~ c", "a ^^= 3", "a = b & c | d", "a = b << 2 >> 1", "a = 0x1p4", "a = 1e10", "a = 0x.8p-3", "a = .5e-3", "a = 0xffffffffffffffff",
        "a = \"\\u{48}\\x41\\z  \n b\\065\"", "goto l ::l::", "a != b" if False else "a = b != c", "a = b ~= c", "if (a) b=1", "if (a) b=1 else c=2", "while (a) b()", "a += 1", "a ..= \"x\"", "?\"x\"", "?a,b", "a = \"é日本\"", "a = [==[\n]]é]==]", "-- é日本",
        "--[[\n日本]]", "function a.b.c:d(...) return ... end", "local function f() return end", "a = b and c or not d", "a = #b .. -c", "a = {1, b = 2, [c] = 3; 4}", "for i = 1, 10, 2 do break end", "for k, v in pairs(a) do end", "repeat until a", "a.b[c]:d \"x\" {}", ";;",
        "a = 1 .. 2", "a = 3 -- c", "a = ~b", "do local _ENV = a end", "a = function() end", "a = b <= c == d", "a = 2^-3^2", "a\\=2", "a = b \\ c", "a = @b + %c + $d", "a = b >>> 1" if False else "a = b >> 1", "a %= 3", "a &= 1 b |= 2 c ^= 3", "a <<= 1 b >>= 2", "include \"x.lua\"", "a = {function() end}"]


def picotron(rng, rec):
    out = [rng.choice(TRON) for _ in range(rng.choice([1, 3, 10, 25]))]
    out = [re.sub(r"\bl\b", "l%d" % i, o) if "goto" in o else o for i, o in enumerate(out)]
    src = "\n".join(out)
    if rng.random() < 0.3:
        src += "\n" + soup.soup(rng, p8=False)
    check(rng, rec, src, lang="picotron")


FAMILIES = [Family("programs", programs, 1600, 30000, need=["accepted_lint", "accepted_minify", "accepted_unminify", "kept"]),
            Family("mutants", mutants, 900, 16000, need=["candidates", "kept"]),
            Family("fragments", fragments, 1500, 30000, need=["kept"]),
            Family("literals", literals, 2500, 40000, need=["kept"]),
            Family("extremes", extremes, 160, 1600, need=["extremes"]),
            Family("picotron", picotron, 800, 10000, need=["kept"])]

if __name__ == "__main__":
    sys.exit(core.main(sys.modules[__name__]))
