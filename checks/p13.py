"""C13: strings that name identifiers are renamed along with them; other strings keep their value."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, luarun, mini, plua
from vlib.core import Family
import p06

PROP = "C13"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: every string of the output is compared, part by part, with the renaming observed on the real identifiers; looked up keys are traced in the VM"
RULE = "a case counts as distinct when the (program, options) pair is new and it has a hinted string with at least one renamed identifier"
ASSUMPTIONS = ["z8lua (lupaz8) implements PICO-8's Lua dialect", "the template syntax of the split sub-language is as in the README"]

NAMES = ["key", "key1", "some_name", "player", "xpos", "ypos", "hp", "_tmp", "e", "zed", "caf\x9a", "\x97but", "a0", "long_member_name", "speed_2", "t1"]
KEYWORDS = sorted(plua.KEYWORDS) if hasattr(plua, "KEYWORDS") else ["if", "end", "local", "nil", "and"]
BUILT = ["circfill", "print", "add", "_init", "btn", "all"]
META = ["__index", "n", "__len"]
FILL = ["", "0", "12", "1abc", "-", " ", "0.5", "$", "  ", "\\", "\n", "'", '"', "x y", "[[", "]]", "%d", "\0", "\x01", "\x0e"]
RUN = re.compile("[0-9A-Za-z_\x1e\x1f\x80-\xff]+")
IDENT = re.compile("[A-Za-z_\x1e\x1f\x80-\xff][0-9A-Za-z_\x1e\x1f\x80-\xff]*")
SEPS = [",", ";", "=", ":", " ", "|", "/", "-", ".", "\n", "&", "~"]


def is_ident(s):
    return bool(IDENT.fullmatch(s)) and s not in KEYWORDS


def literal(rng, val):
    """some spelling of a string value"""
    if rng.random() < 0.15 and "\r" not in val and "\0" not in val:
        for eq in ("", "=", "=="):
            if "]" + eq not in val and not val.endswith("]"):
                return "[" + eq + "[" + ("\n" if val.startswith("\n") else "") + val + "]" + eq + "]"
    q = rng.choice("\"'")
    out = ""
    esc = rng.random() < 0.3
    for i, c in enumerate(val):
        if c in "\\" + q:
            out += "\\" + c
        elif c == "\n":
            out += "\\n"
        elif c == "\r":
            out += "\\r"
        elif c == "\0" or (esc and rng.random() < 0.2):
            out += rng.choice(["\\%03d", "\\x%02x"]) % ord(c)
        else:
            out += c
    return q + out + q


# ---- templates of the split sub-language

class Tmpl:
    """a level of splitting: separator, kinds of the parts, range of the repeating ones"""
    def __init__(m, rng, depth, seps):
        m.sep = seps.pop(rng.randrange(len(seps)))
        m.kinds = []
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            if depth and rng.random() < 0.3:
                m.kinds.append(Tmpl(rng, depth - 1, list(seps)))
            else:
                m.kinds.append(rng.choice(["member", "member", "global", "string", "preserve"]))
        m.rep = None
        if rng.random() < 0.6:
            a = rng.randrange(len(m.kinds))
            m.rep = (a, rng.randrange(a + 1, len(m.kinds) + 1))
        m.trail = rng.random() < 0.4 or len(m.kinds) == 1

    def spec(m, rng):
        parts = []
        for i, k in enumerate(m.kinds):
            s = "(" + k.spec(rng) + ")" if isinstance(k, Tmpl) else k
            if m.rep and m.rep[0] <= i < m.rep[1]:
                s += "s"
            parts.append(s)
        sep = m.sep
        if sep == "\n":
            sep = "\\n"
        elif sep in "()":
            sep = "\\" + sep
        elif sep.isalpha():
            sep = "\\w" + sep
        return sep.join(parts) + (sep if m.trail else "")

    def types(m, n):
        """the kinds of n parts (those beyond the known ones are kept)"""
        k = list(m.kinds)
        if m.rep:
            a, b = m.rep
            mid = n - (len(k) - (b - a))
            k = k[:a] + [k[a + i % (b - a)] for i in range(mid)] + k[b:] if mid >= 0 else k[:a] + k[b:]
        return (k + ["string"] * n)[:n]

    def text(m, rng, word):
        n = rng.choice([0, 1, 2, 3, 4, 5, 8]) if m.rep or rng.random() < 0.3 else len(m.kinds)
        n = max(n, 1)
        return m.sep.join(k.text(rng, word) if isinstance(k, Tmpl) else word(k) for k in m.types(n))


def atoms(tmpl, val):
    """the (kind, text) pieces of a string, according to a template"""
    parts = val.split(tmpl.sep)
    out = []
    for i, (p, k) in enumerate(zip(parts, tmpl.types(len(parts)))):
        if i:
            out.append(("string", tmpl.sep))
        if isinstance(k, Tmpl):
            out += atoms(k, p)
        else:
            out.append((k, p))
    return out


def runs(kind, val):
    out, last = [], 0
    for mt in RUN.finditer(val):
        out.append(("string", val[last:mt.start()]))
        out.append((kind, mt[0]))
        last = mt.end()
    out.append(("string", val[last:]))
    return out


class Maker:
    def __init__(m, rng):
        m.rng = rng
        m.members = rng.sample(NAMES, rng.choice([2, 5, 9]))
        m.globals = rng.sample(NAMES, rng.choice([2, 5, 9]))
        m.lines, m.specs = [], []
        m.aliases = {}

    def word(m, kind, bad=0.25, sep=False):
        r = m.rng
        x = r.random()
        if x < bad:
            w = r.choice(FILL + KEYWORDS + (BUILT if kind == "global" else META))
        elif kind == "string" or x < bad + 0.08:
            w = r.choice(NAMES + ["only_here", "str"])
        else:
            w = r.choice(m.members if kind == "member" else m.globals)
        return w

    def string(m):
        """(source text of the argument, pieces)"""
        r = m.rng
        x = r.random()
        if x < 0.35:
            kind = r.choice(["member", "global"])
            n = r.choice([1, 1, 2, 3, 6])
            sep = r.choice(SEPS)
            val = sep.join(m.word(kind) for _ in range(n))
            old = {"member": "memberof", "global": "nameof"}
            h = "$" + kind if r.random() < 0.8 else r.choice([kind, old[kind]])
            return f"--[[{h}]]" + r.choice(["", " ", "\n"]) + literal(r, val), runs(kind, val)
        if x < 0.75:
            t = Tmpl(r, 2, list(SEPS + ["("]))
            seps = set()

            def allseps(t):
                seps.add(t.sep)
                for k in t.kinds:
                    if isinstance(k, Tmpl):
                        allseps(k)
            allseps(t)

            def word(k):
                for _ in range(20):
                    w = m.word({"preserve": "string"}.get(k, k), 0.2)
                    if not any(s in w for s in seps) or r.random() < 0.02:
                        return w
                return ""
            val = t.text(r, word)
            spec = "split " + t.spec(r)
            if "--" in spec or "]]" in spec or spec != spec.strip():
                return m.string()
            if r.random() < 0.15:
                name = "al%d" % len(m.aliases)
                m.aliases[name] = spec
                spec = name
            return f"--[[$language::{spec}]]" + literal(r, val), atoms(t, val)
        val = r.choice(SEPS).join(m.word("member") for _ in range(r.choice([1, 2, 4])))
        return r.choice(["", "", "--[[$preserve]]", "--[[string]]", "--[[hello]]"]) + literal(r, val), [("string", val)]

    def program(m):
        r = m.rng
        body = []
        for x in m.members:
            body.append(f'printh("M:",anchor.{x})' if r.random() < 0.7 else f'printh("M:",anchor.{x},anchor.{x},{{{x}=1}})')
        for x in m.globals:
            body.append(f"{x}=1" if r.random() < 0.7 else f"local function q{r.randrange(3)}({x}) return {x} end")
            body.append(f'printh("G:",{x})')
        for i in range(r.choice([1, 3, 8])):
            s, pieces = m.string()
            m.specs.append((i, pieces))
            form = r.random()
            if form < 0.7:
                body.append(f'printh("S:",{i},{s})')
            elif form < 0.85:
                body.append(f'printh("S:",{i},foo {s})')
            else:
                body.append(f'printh("S:",{i},{{{s}}})')
        r.shuffle(body)
        src = "\n".join(body)
        for n, v in m.aliases.items():
            src = f"--$def-alias: {n} = {v}\n" + src
        return "function foo() end\nanchor={}\n" + src


def text(t):
    return t.val.decode("latin-1") if isinstance(t.val, bytes) else t.val


def collect(p):
    """({kind: {occurrence: new names}}, {i: string value}) from the printh calls"""
    names, strs = {"M": [], "G": []}, {}
    toks = p.toks
    for i, t in enumerate(toks):
        if t.t == "str" and text(t) in ("M:", "G:", "S:"):
            j = i + 2
            if text(t) == "M:":
                names["M"].append(toks[j + 2].s)
            elif text(t) == "G:":
                names["G"].append(toks[j].s)
            else:
                n = int(toks[j].s)
                while toks[j].t != "str":
                    j += 1
                strs[n] = text(toks[j])
    return names, strs


def diff(rec, src, out, args, R, pieces, val, maps):
    """walks through a string of the output along the pieces of the source's"""
    pos = 0
    nren = 0
    for idx, (kind, s) in enumerate(pieces):
        k = {"preserve": "string"}.get(kind, kind)
        if k == "string" or not is_ident(s):
            new = s
            if val[pos:pos + len(s)] != s:
                return f"{s!r} expected at {pos}, found {val[pos:pos + 30]!r}", nren
            pos += len(s)
            continue
        mt = IDENT.match(val, pos)
        rest = "".join(x for _, x in pieces[idx + 1:])
        if not mt:
            return f"identifier expected in place of {s!r} at {pos}, found {val[pos:pos + 30]!r}", nren
        new = mt[0]
        nxt = rest[:1]
        if nxt and (nxt.isalnum() or nxt in "_\x1e\x1f" or nxt >= "\x80"):  # the separator is an identifier character
            new = val[pos:].split(nxt)[0]
        pos += len(new)
        nren += 1
        if k == "member" and R.as_globals and not R.member("", s, s in p06.META):
            k = "global"
        keep = R.glob(s, s in BUILTINS) if k == "global" else R.member("", s, s in p06.META)
        if keep:
            rec.event("kept")
            if new != s:
                return f"preserved {k} {s!r} became {new!r}", nren
            continue
        rec.event("renamed_" + k)
        old = maps[k].setdefault(s, new)
        if old != new:
            return f"{k} {s!r} became {new!r} here but {old!r} elsewhere", nren
        o2 = maps["inv" + k].setdefault(new, s)
        if o2 != s:
            return f"{k}s {s!r} and {o2!r} both became {new!r}", nren
    if pos != len(val):
        return f"unexpected {val[pos:pos + 30]!r} at the end", nren
    return None, nren


BUILTINS = set(p06.BUILTINS | p06.CALLBACKS)


def strings(rng, rec):
    m = Maker(rng)
    src = m.program()
    try:
        plua.parse(src)
    except plua.LuaErr as e:
        rec.skip(f"not valid: {str(e)[:20]}")
        return
    R = p06.Rules()
    args = mini.rand_config(rng, False)
    args = [a for a in args if not a.startswith(("--rename", "--no-minify-rename", "--preserve"))]
    x = rng.random()
    rules = []
    if x < 0.12:
        args.append("--rename-members-as-globals")
        R.as_globals = True
    elif x < 0.4:
        rules = [rng.choice(["*.", "*.", ""]) + rng.choice(m.members + m.globals) for _ in range(rng.choice([1, 2, 3]))]
        for r in rules:
            R.add(r)
        args += ["--preserve", ",".join(mini.p8_to_uni(r) for r in rules)]
    r, out = mini.transform(src, args)
    if r.crashed or r.rc != 0 or out is None:
        rec.violation("tool-crash" if r.crashed else "rejected", f"valid program refused under {' '.join(args)}", src=src, args=args, **r.brief())
        return
    try:
        p = plua.parse(out)
    except plua.LuaErr as e:
        rec.violation("structure", str(e), src=src, out=out, args=args)
        return
    try:
        names, strs = collect(p)
        sn, _ = collect(plua.parse(src))
    except (IndexError, ValueError) as e:
        rec.violation("structure", f"calls not found: {e}", src=src, out=out, args=args)
        return
    if len(names["M"]) != len(sn["M"]) or len(names["G"]) != len(sn["G"]) or set(strs) != {i for i, _ in m.specs}:
        rec.violation("structure", "not all calls found", src=src, out=out, args=args)
        return
    maps = {"member": {}, "global": {}, "invmember": {}, "invglobal": {}}
    tot = 0
    for kind, k in (("member", "M"), ("global", "G")):
        for s, n in zip(sn[k], names[k]):
            bad, _ = diff(rec, src, out, args, R, [(kind, s)], n, maps)
            if bad:
                rec.violation("names", f"{bad} under {' '.join(args)}", src=src, out=out, args=args)
                return
    for i, pieces in m.specs:
        bad, n = diff(rec, src, out, args, R, pieces, strs[i], maps)
        tot += n
        rec.event("strings")
        if bad:
            rec.violation("string", f"{bad} in string {i} ({strs[i][:60]!r} from {''.join(s for _, s in pieces)[:80]!r}) under {' '.join(args)}", src=src, out=out, args=args)
            return
    rec.eval((src, tuple(args)), nontrivial=tot > 0)
    rec.sample([src[:200], args])


def lookups(rng, rec):
    """keys reached through strings are found at run time"""
    names = rng.sample(NAMES[:10] + ["foo_bar", "qq"], rng.choice([2, 4, 7]))
    gl = rng.sample(["glo_a", "glo_b", "speed", "hp", "xpos"], 2)
    L = ["tbl={" + ",".join(f"{n}={i + 1}" for i, n in enumerate(names)) + "}"]
    L += [f"{g}={100 + i}" for i, g in enumerate(gl)]
    L.append("function parse(s,a,b) local r={} for kv in all(split(s,a,false)) do local p=split(kv,b,false) r[p[1]]=p[2] end return r end")
    for _ in range(rng.choice([2, 5, 9])):
        x = rng.randrange(7)
        n = rng.choice(names)
        ns = [rng.choice(names) for _ in range(rng.choice([1, 2, 4]))]
        sep = rng.choice([",", ";", "|", " "])
        if x == 0:
            L.append(f"printh(tbl[--[[$member]]{literal(rng, n)}])")
        elif x == 1:
            L.append(f"for k in all(split(--[[$member]]{literal(rng, sep.join(ns))},{literal(rng, sep)})) do printh(tbl[k]) end")
        elif x == 2:
            L.append(f"printh(_ENV[--[[$global]]{literal(rng, rng.choice(gl))}])")
        elif x == 3:
            kv = sep.join(f"{k}={rng.choice(names + ['1', '0.5', ''])}" for k in dict.fromkeys(ns))
            L.append(f"local r=parse(--[[$language::split (member=string)s{sep if sep != ' ' else chr(92) + 'x20'}]]{literal(rng, kv)},{literal(rng, sep)},'=')")
            L += [f"printh(r.{k})" for k in dict.fromkeys(ns)]
        elif x == 4:
            kv = sep.join(f"{k}:{rng.choice(gl)}" for k in dict.fromkeys(ns))
            L.append(f"r=parse(--[[$language::split (member:global)s{sep if sep != ' ' else chr(92) + 'x20'}]]{literal(rng, kv)},{literal(rng, sep)},':')")
            L += [f"printh(_ENV[r.{k}])" for k in dict.fromkeys(ns)]
        elif x == 5:
            L.append(f"tbl[--[[$member]]{literal(rng, n)}]=tbl.{rng.choice(names)}+{rng.randrange(9)} printh(tbl.{n})")
        else:
            L.append(f"_ENV[--[[$global]]{literal(rng, rng.choice(gl))}]={rng.randrange(99)} printh({gl[0]}..','..{gl[1]})")
    src = "\n".join(L)
    base = luarun.run(src)
    if base.status != "ok":
        rec.skip(f"vm {base.status}")
        return
    args = mini.rand_config(rng, False)
    r, out = mini.transform(src, args)
    if r.crashed or r.rc != 0 or out is None:
        rec.violation("tool-crash" if r.crashed else "rejected", f"valid program refused under {' '.join(args)}", src=src, args=args, **r.brief())
        return
    after = luarun.run(out)
    rec.event("vm_pairs")
    rec.event("trace_events", len(base.trace))
    if (after.status, after.trace) != (base.status, base.trace):
        rec.violation("lookup", f"{base.trace[:8]} became {after.status} {after.err} {after.trace[:8]} under {' '.join(args)}"[:400], src=src, out=out, args=args)
    rec.eval((src, tuple(args)), nontrivial=any("nil" not in x for x in base.trace))
    rec.sample(src[:200])


def lettersep(rng, rec):
    """known finding: renamed parts may contain the separator, if that is a letter"""
    names = ["member_number_%d" % i for i in range(30)]
    sep = rng.choice("aei")
    src = "printh(" + "..".join(f"tbl.{n}" for n in names) + f")\nforeach(split(--[[$language::split members\\w{sep}]]\"{sep.join(n.upper() for n in names)}\",\"{sep}\"),printh)"
    src = src.replace("tbl.member", "tbl.MEMBER").replace("number", "NUMBER")
    r, out = mini.transform(src, ["--minify"])
    vals = [text(t) for t in plua.parse(out).toks if t.t == "str"]
    rec.eval((src,), nontrivial=True)
    if max(len(v.split(sep)) for v in vals) != len(names):
        rec.violation("letter-separator", f"renamed parts contain their separator {sep!r}", src=src, out=out)


FAMILIES = [Family("strings", strings, 9000, 200000, need=["strings", "renamed_member", "renamed_global", "kept"]),
            Family("lookups", lookups, 5000, 100000, need=["vm_pairs", "trace_events"]),
            Family("lettersep", lettersep, 3, 3)]

if __name__ == "__main__":
    sys.exit(core.main(sys.modules[__name__]))
