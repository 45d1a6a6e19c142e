"""C03: constant folding yields exactly the runtime value."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, luagen, luarun, mini, plua, lua54
from vlib.core import Family
from vlib.tool import cli, Scratch, p8_to_uni
from checks.p01 import compare

PROP = "C03"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: values folded by the real tool compared with the z8lua VM's (PICO-8) and a Lua 5.4 model's (Picotron)"
RULE = "a case counts as distinct when the (program, options) pair is new and something in it was folded"
ASSUMPTIONS = ["z8lua (lupaz8) evaluates as PICO-8 does", "Picotron evaluates as Lua 5.4 does, except where the model declines to say"]

NUMS = ["0", "1", "2", "3", "5", "7", "16", "31", "32", "33", "64", "100", "255", "256", "32767", "0x7fff", "0x8000", "0x8000.0001",
        "0x7fff.ffff", "0xffff.ffff", "0xffff", "0x0.0001", "0.5", "0.25", "1.5", "0.1", "0x.8", "0x1.8", "-1", "-2", "-0.5", "-1.5",
        "-32767", "-32768", "0xfff0", "0b1", "0b101.01", "1.9999", "181.02", "-181.02", "182", "300", "-300", "0x00ff.ff00", "12345.678",
        "0x4000", "0x2000", "65535", "65536", "98765", "10000", "30", "-31", "-32", "-33", "17", "-16", "3.14159"]
STRS = ['""', '"a"', '"b"', '"ab"', '"A"', '"1"', '"2"', '"10"', '"-1"', '"0x10"', '"a\\0b"', '"a\\0c"', '"\\255"', '"\\x80z"', "[[x]]",
        '"1.5"', '"nan"', '"é"' if 0 else '"\\n"', '"z"', '"\\0"']
BIN = ["+", "-", "*", "/", "\\", "%", "&", "|", "^^", "~", "<<", ">>", ">>>", "<<>", ">><", "==", "~=", "!=", "<", "<=", ">", ">=", "..", "and", "or", "^"]
FN1 = ["abs", "flr", "ceil", "bnot", "sgn", "sqrt", "tostr", "tonum"]
FN2 = ["min", "max", "band", "bor", "bxor", "shl", "shr", "lshr", "rotl", "rotr", "atan2"]
FN3 = ["mid"]


def expr(rng, d, pico=True):
    r = rng.random()
    if d <= 0 or r < 0.12:
        k = rng.random()
        if k < 0.72:
            if rng.random() < 0.25:
                return luagen.numlit(rng)
            n = rng.choice(NUMS)
            return n if n[0] != "-" or rng.random() < 0.5 else f"({n})"
        if k < 0.86:
            return rng.choice(STRS)
        return rng.choice(["true", "false", "nil"])
    if r < 0.24:
        op = rng.choice(["-", "-", "~", "not ", "#"])
        a = expr(rng, d - 1)
        if op == "-" and a[0] == "-":
            a = f"({a})"
        return op + a
    if r < 0.36:
        return "(" + expr(rng, d - 1) + ")"
    if r < 0.52:
        k = rng.random()
        if k < 0.4:
            return f"{rng.choice(FN1)}({expr(rng, d - 1)})"
        if k < 0.85:
            n = 2 if rng.random() < 0.95 else rng.choice([1, 3])
            return f"{rng.choice(FN2)}({','.join(expr(rng, d - 1) for _ in range(n))})"
        return f"mid({','.join(expr(rng, d - 1) for _ in range(3))})"
    if r < 0.56:
        # an operand that cannot be folded
        return rng.choice([f"v({expr(rng, d - 1)})", "u", "u[1]", f"({{{expr(rng, d - 1)}}})[1]"])
    return f"{expr(rng, d - 1)} {rng.choice(BIN)} {expr(rng, d - 1)}"


def binpair(rng, d):
    """one operator, both operands boundary numbers: dense coverage of the operator tables"""
    a, b = rng.choice(NUMS), rng.choice(NUMS)
    if rng.random() < 0.35:
        a = f"({luagen.numlit(rng)})"
    if rng.random() < 0.2:
        b = f"({luagen.numlit(rng)})"
    k = rng.random()
    if k < 0.7:
        return f"({a}) {rng.choice(BIN[:15])} ({b})"
    if k < 0.9:
        return f"{rng.choice(FN2[:-1])}({a},{b})"
    return f"{rng.choice(['-', '~', 'not '])}({a})" if rng.random() < 0.5 else f"{rng.choice(FN1[:4])}({a})"


HEAD = "u={7,\"k\"}\nfunction v(...) printh(\"v\",...) return ... end\n"


def try_(rng, body):
    # (errors stop only the coroutine: every expression of the program gets evaluated)
    return f"printh(select(2,coresume(cocreate(function() {body} end))))\n"


def program_exprs(rng):
    out = [HEAD]
    dense = rng.random() < 0.4
    for i in range(rng.choice([12, 25])):
        e = binpair(rng, 3) if dense else expr(rng, rng.choice([1, 2, 2, 3, 4]))
        k = rng.random()
        if k < 0.4:
            out.append(try_(rng, f"printh({e})"))
        elif k < 0.5:
            out.append(try_(rng, f"printh({i},{e},{expr(rng, 2)})"))
        elif k < 0.6:
            out.append(try_(rng, f"return {e}"))
        elif k < 0.7:
            out.append(try_(rng, f"local a,b={e} printh(a,b)"))
        elif k < 0.78:
            out.append(try_(rng, f"local t={{[{e}]={expr(rng, 1)},{e}}} printh(t[1],#t) for k,w in pairs(t) do printh(k,w) end"))
        elif k < 0.86:
            c = rng.choice(["if {0} then printh(1) elseif {1} then printh(2) else printh(3) end", "if {0} then printh(1) end printh(4)",
                            "if not({0}) then printh(1) elseif u then printh(2) end", "if u[5] then elseif {0} then printh(2) elseif {1} then printh(3) end",
                            "if {0} then local q=1 printh(q) else local q=2 printh(q) end", "if {0} then return 5 end printh(6)",
                            "while {0} do printh(1) break end", "repeat local z={1} until {0} or true", "if {0} then goto x end printh(2) ::x::"])
            out.append(try_(rng, c.format(e, expr(rng, 2))))
        elif k < 0.93:
            out.append(try_(rng, f"local c={e} local d=c {rng.choice(BIN)} {expr(rng, 1)} printh(c,d) " + rng.choice(["", "c=5", "printh(function() return c end)"])))
        else:
            out.append(try_(rng, rng.choice(["local s={0} s..={1} printh(s)", "local s={0} s+={1} printh(s)", "({0}):x()", "printh(({0})[1])", "printh(({0}).x)",
                                             "printh(({0})\"x\")", "for i={0},{1} do printh(i) break end", "printh(-{0}^2)", "printh(2^-{0})", "printh({0}..{1})"]).format("(" + e + ")", "(" + expr(rng, 1) + ")")))
    return "".join(out)


def folded(src, code):
    try:
        a, b = plua.lex(src), plua.lex(code)
    except plua.LuaErr:
        return 0
    return max(0, len(a) - len(b))


def run_configs(rng, rec, src, base, ref_src=None, extra=(), n=2):
    with mini.Tool(src) as t:
        for _ in range(n):
            args = list(rng.choice([["--minify-consts-only"], ["--minify-consts-only"], ["--minify-safe-only"], ["--minify-consts-only", "--focus-chars"],
                                    ["--minify-safe-only", "--focus-chars"], ["--minify-safe-only", "--focus-compressed", "--no-minify-rename"], ["--minify"]])) + list(extra)
            r, code = t.run(*args)
            if code is not None:
                rec.event("tokens_folded", folded(src, code))
            if not compare(rec, src, base, code, args, r):
                return False
    return True


def exprs(rng, rec):
    src = program_exprs(rng)
    base = luarun.run(src)
    rec.event("program_" + base.status)
    if base.status != "ok":
        rec.skip("program not usable: " + str(base.err)[:60])
        return
    run_configs(rng, rec, src, base)
    rec.sample(src[:200])


DOLLAR = ["--[[$const]] ", "--[[const]] ", "--[[$const]]"]


def consts(rng, rec):
    """variables declared constant, by hints or on the command line"""
    pure = ["2.5", "3", "-1", "0x10", "true", "false", "nil", '"str"', "4*5", "0.5+1", "(7)", "flr(2.7)", "mid(1,9,3)", "1<<4", '"a".."b"', "not nil", "-0x8000", "~5", "max(3,8)"]
    head, decl, env, opts, known = [HEAD], [], {}, [], []
    # command line constants
    pre = []
    for nm in rng.sample(["DEBUG", "speed", "VERSION", "k_a", "_x"], rng.choice([0, 1, 2, 3])):
        if rng.random() < 0.65:
            v = rng.choice(["true", "false", "nil", "5", "2.5", "-3", "0x7fff.ffff", "0b11", '"hey"', "'q'", "0", "-0.5", "~1", "[[z]]"])
            opts += ["--const", nm, v]
            pre.append(f"{nm}={v}\n")
        else:
            v = rng.choice(["v1.2", "", "hé" if 0 else "he y", "5", "a\"b", "x\\n", "🅾️k", "-- c", "]]"])
            opts += ["--str-const", nm, v]
            from vlib.tool import uni_to_p8
            pre.append(f"{nm}={luagen.quote(uni_to_p8(v), rng, False)}\n")
        known.append(nm)
        if rng.random() < 0.3:
            # a default value in the source, overridden by the command line
            decl.append((f"{rng.choice(DOLLAR)}{nm}={rng.choice(pure)}\n", ""))
    # (each part: the text given to the tool and the text that means the same to the VM)
    for i in range(rng.choice([1, 3, 5])):
        nm = rng.choice(["c", "d", "kk", "e", "f"]) + str(i)
        loc = rng.choice(["local ", "local ", ""])
        val = rng.choice(pure + [f"{k}" for k in known[-2:]] + [f"{k} and {k} or 5" for k in known[-1:]])
        style = rng.random()
        if style < 0.6 or not loc:
            t = f"{rng.choice(DOLLAR)}{loc}{nm}={val}\n"
            known.append(nm)
        elif style < 0.8:
            t = f"{loc}--[[$const]] {nm},{nm}x={val},v(1)\n"
            known += [nm, nm + "x"]
        else:
            t = f"{rng.choice(DOLLAR)}{loc}{nm},{nm}y,{nm}z={val},{rng.choice(pure)}\n"
            known += [nm, nm + "y", nm + "z"]
        decl.append((t, t))
    body = []

    def use():
        k = rng.choice(known)
        return rng.choice([k, k, f"{k}=={rng.choice(pure)}", f"({k} or 4)", f"{k} and 1 or 2", f"not {k}", f"{k}..\"\"" if rng.random() < 0.3 else k, f"(type({k})==\"number\" and {k}*2 or 0)"])
    for i in range(rng.choice([4, 10])):
        k = rng.random()
        if k < 0.3:
            body.append(try_(rng, f"printh({use()},{use()})"))
        elif k < 0.6:
            c = rng.choice(["if {0} then printh(\"A\") {3} elseif {1} then printh(\"B\") else printh(\"C\") {4} end", "if ({0}) printh(\"A\") {3}\n",
                            "if ({0}) printh(\"A\") else printh(\"B\")\n", "if {0} then {3} end", "if u then if {0} then printh(1) else printh(2) end end",
                            "if u[9] then printh(9) elseif {0} then printh(\"E\") else printh(\"F\") end", "if u[9] then printh(9) elseif {0} then printh(\"E\") end",
                            "if {0} then elseif {1} then printh(\"G\") elseif u then printh(\"H\") end", "while {0} do printh(\"W\") do break end end"])
            body.append(c.format(use(), use(), 0, rng.choice(["", "local z=5 printh(z)", "u.q=1"]), rng.choice(["", "local z=6 printh(z)"])) + "\n")
        elif k < 0.75:
            nm = rng.choice(known)
            body.append(f"function fn{i}({nm}) printh({nm}) local {nm}=8 printh({nm},{use()}) end fn{i}(3)\n")
        elif k < 0.85:
            body.append(f"do local {rng.choice(known)}={rng.choice(pure)} printh({use()}) end\n")
        elif k < 0.93:
            body.append(f"printh(u.{rng.choice(known)},u[{use()} or 1])\n")
        else:
            body.append(f"local function g{i}() return {use()} end printh(g{i}())\n")
    tool_src = HEAD + "".join(d[0] for d in decl) + "".join(body)
    vm_src = HEAD + "".join(pre) + "".join(d[1] for d in decl) + "".join(body)
    base = luarun.run(vm_src)
    rec.event("program_" + base.status)
    if base.status not in ("ok", "error") or base.status == "syntax":
        rec.skip("program not usable")
        return
    rec.event("cmdline_consts", len(pre))
    with mini.Tool(tool_src) as t:
        for _ in range(2):
            args = list(rng.choice([["--minify-consts-only"], ["--minify-safe-only"], ["--minify-consts-only", "--focus-chars"], ["--minify"], ["--minify-safe-only", "--focus-chars"]])) + opts
            r, code = t.run(*args)
            if code is not None:
                rec.event("tokens_folded", folded(tool_src, code))
            if "cannot be determined" in r.out:
                rec.event("undetermined_warnings")
            if not compare(rec, tool_src + "\0" + vm_src, base, code, args, r):
                return


# ---------------------------------------------------------------- picotron

TN = ["0", "1", "2", "3", "5", "7", "31", "32", "63", "64", "65", "100", "0x7fffffffffffffff", "0x8000000000000000", "0xffffffffffffffff",
      "9223372036854775807", "9223372036854775808", "0.0", "-0.0", "0.1", "0.5", "1.5", "2.0", "1e10", "1e100", "1e-5", "1e400", "123456789.125",
      "-1", "-2", "-1.5", "-7", "-63", "-64", "4294967296", "0x1p4", "0x.8", "0b101", "1e15", "1e16", "9007199254740993", "3.0", "-3.0", "0x123456789abcdef1", "10.5", "-10.5", "1.3"]
TS = ['""', '"a"', '"b"', '"1"', '"\\x80"', '"\\xff"', '"é"', '"é\\x80"', '"\\u{10000}"', '"\\u{ffff}"', '"\\xc3".."\\xa9"', '"ab\\0c"', '"a"', "[[z]]", '"日"', '"\\xe9"']


def texpr(rng, d):
    r = rng.random()
    if d <= 0 or r < 0.1:
        k = rng.random()
        if k < 0.75:
            n = rng.choice(TN)
            return n if n[0] != "-" else f"({n})"
        return rng.choice(TS) if k < 0.92 else rng.choice(["true", "false", "nil"])
    if r < 0.2:
        return rng.choice(["-", "~", "not ", "#"]) + "(" + texpr(rng, d - 1) + ")"
    if r < 0.34:
        k = rng.random()
        if k < 0.5:
            return f"{rng.choice(['flr', 'ceil', 'abs'])}({texpr(rng, d - 1)})"
        if k < 0.85:
            return f"{rng.choice(['min', 'max'])}({texpr(rng, d - 1)},{texpr(rng, d - 1)})"
        return f"mid({texpr(rng, d - 1)},{texpr(rng, d - 1)},{texpr(rng, d - 1)})"
    if r < 0.4:
        return "(" + texpr(rng, d - 1) + ")"
    return f"{texpr(rng, d - 1)} {rng.choice(['+', '-', '*', '/', chr(92), '%', '&', '|', '^^', '~', '<<', '>>', '==', '~=', '!=', '<', '<=', '>', '>=', '..', 'and', 'or', '^'])} {texpr(rng, d - 1)}"


def tron(rng, rec):
    es = []
    for i in range(30):
        e = texpr(rng, rng.choice([1, 1, 2, 3]))
        es.append(e)
    src = "".join(f"r{i}={e}\n" for i, e in enumerate(es))
    with Scratch() as s:
        inp = s.write("a.lua", src)
        args = rng.choice([["--minify-consts-only"], ["--minify-consts-only"], ["--minify-safe-only", "--no-minify-rename", "--no-minify-lines"], ["--minify", "--no-minify-rename", "--no-minify-lines"]])
        r = cli([inp, s.path("b.lua")] + args, lang="picotron")
        if r.rc not in (0, 2) or not s.exists("b.lua"):
            rec.violation("rejected" if not r.crashed else "tool-crash", f"picotron program refused under {args}", src=src, **r.brief())
            return
        out = s.read("b.lua")
    got = {}
    for line in out.split(b"\n"):
        mt = re.match(rb"r(\d+)=(.*)$", line.rstrip(b"\r"), re.S)
        if mt:
            got[int(mt.group(1))] = mt.group(2)
    if sorted(got) != list(range(len(es))):
        rec.violation("structure", "assignments lost or merged", src=src, out=out.decode("latin-1"))
        return
    for i, e in enumerate(es):
        try:
            want = lua54.evaluate(e.encode("utf8"))
        except lua54.Syn as ex:
            raise Exception(f"model cannot parse {e!r}: {ex}")
        try:
            have = lua54.evaluate(got[i])
        except lua54.Syn as ex:
            rec.violation("malformed", f"{e} became {got[i]!r}, which is not an expression ({ex})")
            return
        lit = re.fullmatch(rb"-?[\w.]+|\"[^\"]*\"|'[^']*'", got[i]) is not None
        if lit and not re.fullmatch(r"-?[\w.]+|\"[^\"]*\"", e):
            rec.event("tron_folded")
            if want is lua54.UNK:
                rec.event("tron_folded_unknown")
        if want is lua54.UNK or have is lua54.UNK:
            if have is not lua54.UNK and want is lua54.UNK:
                rec.event("tron_declined")
            elif want is not lua54.UNK and want != ("error",):
                # (an error can hide behind a part the model says nothing about)
                rec.violation("tron-value", f"{e} (={want!r}) became {got[i]!r}, of unknown value")
                return
            continue
        rec.eval(("tron", e, tuple(args)), nontrivial=lit)
        if not lua54.same(want, have):
            rec.violation("tron-value", f"{e} is {want!r} but its output {got[i].decode('latin-1')} is {have!r} under {args}")
            return


FAMILIES = [Family("exprs", exprs, 1800, 40000, need=["vm_pairs", "tokens_folded"]),
            Family("consts", consts, 1800, 40000, need=["vm_pairs", "tokens_folded", "cmdline_consts"]),
            Family("picotron", tron, 1500, 40000, need=["tron_folded"])]

if __name__ == "__main__":
    sys.exit(core.main(sys.modules[__name__]))
