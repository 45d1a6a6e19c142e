"""C04: respelled literals keep their value."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, luagen, luarun, mini, plua, lua54
from vlib.core import Family
from vlib.tool import cli, Scratch
from checks.p01 import compare

PROP = "C04"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: values of the literals the real tool wrote, as seen by the z8lua VM (PICO-8) / an independent Lua 5.4 reader (Picotron), compared with the source's"
RULE = "a case counts as distinct when the (program of literals, options) pair is new and some literal was written in another spelling"
ASSUMPTIONS = ["z8lua (lupaz8) reads literals as PICO-8 does", "Picotron reads literals as Lua 5.4 does"]

EDGE = [0, 1, 2, 0xffff, 0x10000, 0x7fff0000, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0xffff0000, 0xfffe0000, 0xfffeffff, 0x8000ffff,
        0x00008000, 0x00010001, 0x0000000f, 0x00000010, 0x000a0000, 0x270f0000, 0xfff60000, 0xff9c0000, 0x00640000, 0x00630000, 0xff000000, 0xf0000000]


def fixnum(rng):
    k = rng.random()
    if k < 0.2:
        return rng.choice(EDGE)
    if k < 0.4:
        return rng.randrange(65536) << 16
    if k < 0.55:
        return rng.randrange(65536)
    if k < 0.7:
        return (rng.randrange(0, 3000) << 16 | rng.choice([0x8000, 0x4000, 0x1999, 0x199a, 0x3333, 0xcccd, 0xffff, 1, 0x28f, 0x290, 0x41, 0x42, 0x6666, 0x6667])) & 0xffffffff
    v = rng.randrange(1 << 32)
    if k < 0.85:
        v &= ~0 << rng.randrange(32)
    return v & 0xffffffff


def spell(rng, v):
    """some numeral of PICO-8 (its exact value is left to the VM)"""
    k = rng.random()
    if k < 0.3:
        ip, fp = "%x" % (v >> 16), ("%04x" % (v & 0xffff))
        if rng.random() < 0.7:
            fp = fp.rstrip("0")
        ip = rng.choice(["", "", "0", "00", "1", "f0"]) + ip
        if rng.random() < 0.15:
            fp += rng.choice(["0", "00", "1", "7", "8", "ff", "80000"])
        s = ip + ("." + fp if fp or rng.random() < 0.1 else "")
        if s.startswith("0.") and rng.random() < 0.5:
            s = s[1:]
        s = rng.choice(["0x", "0x", "0X"]) + s
        return s if rng.random() < 0.8 else s.upper()
    if k < 0.45:
        s = rng.choice(["", "0", "1"]) + bin(v >> 16)[2:]
        f = format(v & 0xffff, "016b").rstrip("0")
        if f:
            s += "." + f + rng.choice(["", "", "0", "1"])
        return rng.choice(["0b", "0B"]) + s
    d = v / 65536
    if v >> 31 and rng.random() < 0.5:
        d = ((1 << 32) - v) / 65536
    s = "%.*f" % (rng.choice([0, 1, 2, 3, 4, 4, 5, 6, 8, 12, 16]), d)
    if "." in s and rng.random() < 0.7:
        s = s.rstrip("0")
        if rng.random() < 0.8:
            s = s.rstrip(".")
    if s.startswith("0.") and rng.random() < 0.5:
        s = s[1:]
    if rng.random() < 0.1:
        s = rng.choice(["0", "00", "65536", "1", "9"]) + s
    return s


CTX = ["p({0})", "p({0})", "p({0})", "p(-{0})", "p(~{0})", "p(not {0})", "p(2^{0})", "p({0}^2)", "p(-{0}^2)", "p(2^-{0})", "p(2^~{0})", "p(x-{0})", "p(x-({0}))", "p(x~{0})",
       "p(x^^{0})", "p({0}-x)", "p(x..{0})", "p({0} ..x)", "p(#{{{0},{1}}})", "for k,v in pairs({{[{0}]={1},{1}}})do p(v)end", "p({0}=={1})", "p({0}<{1},{1}>={0})",
       "if({0})p({1})", "x={0} p(x) x=5", "local q,r={0},-{1} p(q,r)", "p(({0}))", "p(({0})^2)", "p(- -{0})", "p(-~{0})", "p(~-{0})", "p(x*{0})", "p(x*-{0})", "p({0}*-{1})",
       "p((-{0})^2)", "p((~{0})^2)", "p(2^(-{0}))", "p(f{{{0}}}[1])", "p({0}&{1}|{0})", "p({0}>>>1,{0}<<2)", "do local t={{}} t[{0}]=1 t[{1}]=2 p(t[{0}],t[{1}]) end", "p(@{0})" if 0 else "p({0}%7)",
       "p(function()return{0}end)p((function()return{0} end)())", "?{0},{1}\n", "a={0}b={1}p(a,b)", "a=-{0}b=~{1}p(a,b)", "p({0}\\1)", "p({0}--[[c]]-{1})", "p({0}- -{1})"]
CONFIGS = [["--minify-safe-only"], ["--minify-safe-only", "--no-minify-consts"], ["--minify-safe-only", "--focus-chars"], ["--minify-safe-only", "--focus-compressed"],
           ["--minify-safe-only", "--no-minify-consts", "--focus-chars"], ["--minify-safe-only", "--no-minify-consts", "--focus-compressed"], ["--minify-safe-only", "--focus-tokens"],
           ["--minify-consts-only"], ["--minify-safe-only", "--no-minify-spaces"], ["--minify-safe-only", "--no-minify-tokens"]]
HEAD = "x=5 function f(a)return a end function p(...)printh(type(...),...)end\n"


def respelled(src, code):
    try:
        a = [t.s for t in plua.lex(src) if t.t in ("num", "str")]
        b = [t.s for t in plua.lex(code) if t.t in ("num", "str")]
    except plua.LuaErr:
        return 1
    return len(set(b) - set(a))


def check(rng, rec, lines, n=3):
    src = HEAD + "".join(l + "\n" for l in lines)
    base = luarun.run(src)
    if base.status == "syntax":
        good = [l for l in lines if luarun.run(HEAD + l + "\n").status != "syntax"]
        rec.event("numerals_refused_by_the_vm", len(lines) - len(good))
        src = HEAD + "".join(l + "\n" for l in good)
        base = luarun.run(src)
    if base.status != "ok":
        rec.skip("program not usable: " + str(base.err)[:80])
        return
    rec.event("literal_lines", len(lines))
    with mini.Tool(src, rng.choice([43, 43, 43, 41, 36])) as t:
        for args in rng.sample(CONFIGS, n):
            r, code = t.run(*args)
            if code is not None:
                rec.event("literals_respelled", respelled(src, code))
            if not compare(rec, src, base, code, args, r):
                return False
    rec.sample(src[-200:])


def numbers(rng, rec):
    check(rng, rec, [rng.choice(CTX).format(spell(rng, fixnum(rng)), spell(rng, fixnum(rng))) for _ in range(40)])


def escaped(rng, s, q):
    out = []
    for i, c in enumerate(s):
        o = ord(c)
        nd = s[i + 1:i + 2].isdigit()
        k = rng.random()
        named = {7: "a", 8: "b", 12: "f", 10: "n", 13: "r", 9: "t", 11: "v", 92: "\\", 34: '"', 39: "'", 42: "*", 35: "#", 45: "-", 124: "|", 43: "+", 94: "^"}
        must = c in "\0\r\n\\" or c == q
        if not must and k < 0.55:
            out.append(c)
        elif k < 0.75 and o in named and not (o in (42, 35, 45, 124, 43, 94)):
            out.append("\\" + named[o])
        elif k < 0.85 and o < 256:
            out.append("\\x%02x" % o if rng.random() < 0.5 else "\\x%02X" % o)
        elif nd or k < 0.93:
            out.append("\\%03d" % o)
        else:
            out.append("\\%d" % o)
        if rng.random() < 0.02:
            out.append("\\z" + rng.choice(["", " ", "  \n  ", "\n\n"]) if (s[i + 1:i + 2] or "x") not in " \t\n\v\f\r" else "")
    if c_nl(s) and rng.random() < 0.0:
        pass
    return q + "".join(out) + q


def c_nl(s):
    return "\n" in s


# escapes that mean control characters of the PICO-8 print
P8ESC = ["\\*", "\\#", "\\-", "\\|", "\\+", "\\^"]


def strlit(rng, s=None):
    if s is None:
        k = rng.random()
        if k < 0.3:
            s = "".join(chr(rng.randrange(256)) for _ in range(rng.choice([1, 1, 2, 3, 8, 20])))
        elif k < 0.5:
            s = "".join(rng.choice("\"'\\]\n[=a1 \0\r09-") for _ in range(rng.choice([1, 2, 4, 9])))
        elif k < 0.65:
            s = "".join(chr(rng.randrange(16)) + rng.choice("0123456789a") for _ in range(rng.choice([1, 2, 4])))
        elif k < 0.8:
            s = rng.choice(["]]", "]=]", "]]]=]", "[[", "\n", "\n\n", "\r\n", "\n\r", "--", "--[[", "it's", '"', '"\'', "\\", "\\\\", "]", "a]", "[", "=", "[=[", "\\n", "\\0", "//", "x]]y]=]z", "]==]]]",
                            "\"\"''", "''\"", "\t", "\n]]", " ", "\\z  a", "#include x", "__lua__"])
            s = s + rng.choice(["", "", s, "x", "]", "\""])
        else:
            s = luagen.strval(rng)
    if "\0" not in s and "\r" not in s and rng.random() < 0.3:
        for eqs in ([""] if rng.random() < 0.5 else []) + ["=" * rng.choice([0, 1, 2, 5]), "=" * 7]:
            if "]" + eqs + "]" in s + "]" or eqs == "" and "[[" in s:
                continue
            return "[" + eqs + "[" + ("\n" if s[:1] == "\n" or rng.random() < 0.3 else "") + s + "]" + eqs + "]"
    if rng.random() < 0.1:
        i = rng.randrange(len(s) + 1)
        q = rng.choice("\"'")
        return escaped(rng, s[:i], q)[:-1] + rng.choice(P8ESC) + escaped(rng, s[i:], q)[1:]
    lit = escaped(rng, s, rng.choice("\"'"))
    if rng.random() < 0.05:
        lit = lit.replace("\\n", "\\\n", 1)
    return lit


SCTX = ["p({0})", "p({0})", "p {0}", "p({0}..{1})", "p({0}=={1})", "p({{{0},a={1}}}[1])", "p(#{0})", "p(f{0},{1})", "x={0} p(x) x=5", "local a,b={0},{1} p(a,b)", "p(({0}))", "if({0})p({1})",
        "p(({{[ {0}]=1}})[ {0}])", "?{0}\n", "p({0}<{1})", "p(not {0})", "p(f({0}))", "p({0}..5)", "p(sub({0},1,3),ord({1},1,9))", "p(f[[x]],{0})", "a={0}b={1}p(a,b)", "p(({{ {0},{1}}})[2])",
        "for _,k in ipairs{{ {0},{1}}} do p(k) end", "p(x and {0} or {1})"]


def strings(rng, rec):
    lines = [rng.choice(SCTX).format(strlit(rng), strlit(rng)) for _ in range(25)]
    lines = [l for l in lines if not re.search(r"(?m)^#include|^__\w+__\s*$", l)]
    check(rng, rec, lines)


def bytes_exh(rng, rec):
    """every byte value in every spelling, before every kind of next character"""
    i = rec.cur["index"]
    lines = []
    for nxt in ["", "0", "7", "9", "a", "f", "\"", "'", "\\\\", "\\0", "]"]:
        for esc in ["\\%03d", "\\x%02x", "%c", "\\%d"]:
            if esc == "\\%d" and nxt and nxt[0].isdigit() and i < 100:
                continue
            if esc == "%c" and chr(i) in "\0\r\n\\":
                continue
            for q in "\"'":
                if nxt == q or esc == "%c" and chr(i) == q:
                    continue
                lines.append(f"p({q}{esc % i}{nxt}{q},{q}z{esc % i}{nxt}{esc % i}{q})")
    check(rng, rec, lines, n=len(CONFIGS))


# ---------------------------------------------------------------- picotron

def tnum(rng):
    k = rng.random()
    if k < 0.12:
        return rng.choice(["0", "1", "0.0", "0.", ".0", "0x0", "0x0p0", "0x.0", "9223372036854775807", "9223372036854775808", "0x7fffffffffffffff", "0x8000000000000000", "0xffffffffffffffff",
                           "1e308", "1e309", "1e400", "5e-324", "2e-324", "0x1p-1074", "0x1p1023", "0x1p1024", "1e15", "1e16", "1e17", "1e100", "0x1fffffffffffffffff", "0xabcdef0123456789abcdef",
                           "18446744073709551615", "18446744073709551616", "123456789012345678901234567890", "0b0", "0b1.1", "0B11", "0xfffffffffffffffe", "0xffffffffffff0000", "2.2250738585072014e-308",
                           "1.7976931348623157e308", "0x.1p4", "0xA.8p-1", "0X1P+4", "1E5", "1e+5", "1e-5", "0.1e1", "00012", "000.5", "3.", "1e0", "10e-1", "4503599627370497.5", "9007199254740993.0"])
    if k < 0.3:
        return str(rng.randrange(1 << rng.randrange(1, 70)))
    if k < 0.45:
        return rng.choice(["0x%x", "0X%X", "0x0%x"]) % rng.randrange(1 << rng.randrange(1, 66))
    if k < 0.5:
        return "0b" + bin(rng.randrange(1 << rng.randrange(1, 60)))[2:]
    if k < 0.65:
        return "%.*f" % (rng.randrange(0, 8), rng.random() * 10 ** rng.randrange(0, 8)) + rng.choice(["", ".", "0"][:1])
    if k < 0.8:
        import struct
        v = abs(struct.unpack("<d", struct.pack("<Q", rng.randrange(1 << 64)))[0])
        if v != v or v == float("inf"):
            v = 1.5
        return repr(v) if rng.random() < 0.6 else "%.*e" % (rng.randrange(0, 18), v)
    if k < 0.9:
        v = rng.randrange(1, 1 << rng.choice([4, 20, 53])) * 2.0 ** rng.randrange(-70, 40)
        return rng.choice([repr(v), v.hex(), "%.3f" % v])
    return "0x%x.%xp%d" % (rng.randrange(1 << 20), rng.randrange(1 << 40), rng.randrange(-30, 30)) if rng.random() < 0.5 else "0x%x.%x" % (rng.randrange(1 << 20), rng.randrange(1 << 30))


def tbytes(rng):
    k = rng.random()
    if k < 0.35:
        return bytes(rng.randrange(256) for _ in range(rng.choice([1, 1, 2, 3, 9])))
    if k < 0.6:
        return "".join(rng.choice("aé日😀\"'\\]\n0[=\r\0 \x7f\u0080\uffff\u07ff") for _ in range(rng.choice([1, 2, 4]))).encode("utf8", "surrogatepass")
    if k < 0.75:
        u = rng.choice(["é", "日", "😀"]).encode()
        return u[:rng.randrange(1, len(u) + 1)] + rng.choice([b"", b"1", u, b"\xff", u[1:]])
    return rng.choice([b"]]", b"\n", b"]=]", b"\r\n", b"it's", b'"', b"\\", b"--", b"\0", b"\0001", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80"])


def tlit(rng, b):
    if rng.random() < 0.25 and not set(b) & {0, 13}:
        eq = rng.choice([b"", b"=", b"=="])
        if b"]" + eq + b"]" not in b + b"]":
            return b"[" + eq + b"[" + (b"\n" if b[:1] == b"\n" or rng.random() < 0.2 else b"") + b + b"]" + eq + b"]"
    q = rng.choice([b'"', b"'"])
    out = b""
    i = 0
    while i < len(b):
        c = b[i:i + 1]
        o = b[i]
        k = rng.random()
        nd = b[i + 1:i + 2].isdigit()
        if c not in (b"\0", b"\r", b"\n", b"\\", q) and k < 0.5:
            out += c
        elif o >= 0xc2 and k < 0.65 or o < 128 and k < 0.55:
            for n in (4, 3, 2, 1):
                try:
                    ch = b[i:i + n].decode("utf8")
                except UnicodeDecodeError:
                    continue
                if len(ch) == 1:
                    out += b"\\u{" + (b"000" if rng.random() < 0.1 else b"") + b"%x}" % ord(ch)
                    i += n - 1
                    break
            else:
                out += b"\\x%02x" % o
        elif k < 0.75:
            out += b"\\x%02X" % o
        elif k < 0.9 or nd:
            out += b"\\%03d" % o
        else:
            out += b"\\%d" % o
        i += 1
    if rng.random() < 0.05:
        out += rng.choice([b"\\z  ", b"\\z\n", b"\\u{7fffffff}", b"\\u{110000}", b"\\u{d800}", b"\\u{dfff}"])
    return q + out + q


TCTX = ["{0}", "{0}", "{0}", "({0})", "-{0}", "~{1}", "not {0}", "-({0})", "- -{0}", "-~{1}", "{0}+{0}", "{0}*-{1}", "{1}-{1}", "{1}- -{1}", "{0}=={1}", "x=={0}"]
TCFG = [["--minify-safe-only", "--no-minify-rename", "--no-minify-lines"], ["--minify-safe-only", "--no-minify-rename", "--no-minify-lines", "--no-minify-consts"], ["--minify-consts-only"],
        ["--minify-safe-only", "--no-minify-rename", "--no-minify-lines", "--no-minify-reorder"], ["--minify-safe-only", "--no-minify-rename", "--no-minify-lines", "--no-minify-tokens"]]


def picotron(rng, rec):
    es = []
    for i in range(40):
        if rng.random() < 0.55:
            ints = rng.choice(["5", "0x10", "7", "0xffffffffffffffff", str(rng.randrange(1 << 62)), "255"])
            e = rng.choice(TCTX[:-1]).replace("{0}", tnum(rng)).replace("{1}", ints).encode()
        else:
            e = rng.choice([b"%s", b"%s", b"(%s)", b"#%s", b"%s..''", b"%s==''"]) % tlit(rng, tbytes(rng))
        try:
            lua54.evaluate(e)
        except lua54.Syn:
            continue
        es.append(e)
    src = b"".join(b"r%d=%s\n" % (i, e) for i, e in enumerate(es))
    with Scratch() as s:
        inp = s.write("a.lua", src)
        for n, args in enumerate(rng.sample(TCFG, 2)):
            r = cli([inp, s.path("b%d.lua" % n)] + args, lang="picotron")
            if r.rc not in (0, 2) or not s.exists("b%d.lua" % n):
                rec.violation("tool-crash" if r.crashed else "rejected", f"picotron literals refused under {args}", src=src.decode("latin-1"), **r.brief())
                return
            out = s.read("b%d.lua" % n)
            # (string literals can span lines: read assignment by assignment)
            got = split(out)
            rec.eval((src, tuple(args)), nontrivial=out != src)
            if len(got) != len(es):
                rec.violation("structure", f"{len(es)} assignments became {len(got)} under {args}", src=src.decode("latin-1"), out=out.decode("latin-1"))
                return
            for i, e in enumerate(es):
                want = lua54.evaluate(e)
                try:
                    have = lua54.evaluate(got[i])
                except lua54.Syn as ex:
                    rec.violation("malformed", f"{e!r} became {got[i]!r}: {ex}", args=args)
                    return
                rec.event("tron_literals")
                if got[i] != e:
                    rec.event("tron_respelled")
                if want is lua54.UNK or have is lua54.UNK:
                    continue
                if not lua54.same(want, have):
                    rec.violation("tron-value", f"{e!r} (={want!r}) became {got[i]!r} (={have!r}) under {args}")
                    return


def split(out):
    """the expressions assigned to r0, r1, ..."""
    res, cur, i = [], None, 0
    toks = []
    while i < len(out):
        mt = lua54.TOK.match(out, i)
        if not mt or mt.end() == i:
            break
        k = "str" if mt.group("str") else mt.lastgroup
        if k != "ws":
            toks.append((k, mt.start(), mt.end(), mt.group(0)))
        i = mt.end()
    starts = [n for n, t in enumerate(toks) if t[0] == "name" and re.fullmatch(rb"r\d+", t[3]) and n + 1 < len(toks) and toks[n + 1][3] == b"="]
    for a, b in zip(starts, starts[1:] + [len(toks)]):
        res.append(out[toks[a + 1][2]:toks[b - 1][2]].strip())
    return res


FAMILIES = [Family("numbers", numbers, 1500, 40000, need=["vm_pairs", "literals_respelled"]),
            Family("strings", strings, 1500, 40000, need=["vm_pairs", "literals_respelled"]),
            Family("bytes", bytes_exh, 256, 256, need=["vm_pairs"], exhaustive=True),
            Family("picotron", picotron, 1500, 40000, need=["tron_respelled"])]

if __name__ == "__main__":
    sys.exit(core.main(sys.modules[__name__]))
