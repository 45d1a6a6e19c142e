"""C06: preserve options and hints are obeyed exactly."""
import fnmatch, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, luarun, mini, plua, soup
from vlib.binding import aligned, OneToOne, Bad
from vlib.core import Family
from vlib.tool import cli, Scratch

PROP = "C06"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: an independent model of the documented rules classifies every identifier; the real renamed output is judged token by token"
RULE = "a case counts as distinct when the (program, options) pair is new; it is non-trivial if an option or hint decided at least one identifier"
ASSUMPTIONS = ["rules are read as documented: exact names override the full wildcard, partial wildcards override it too, a matching negation wins over a match of its own kind"]

BUILTINS = set(soup.BUILTINS_G) | set(luarun.STUBS) | set(luarun.LOCALS) | {chr(c) for c in range(0x80, 0x9a)}
CALLBACKS = set(soup.CALLBACKS)
META = set("__index __newindex __len __eq __lt __le __add __sub __mul __div __idiv __mod __pow __concat __unm __call __tostring __metatable __mode __gc __pairs n".split())

GN = ["globa", "globb", "my_glob", "update_one", "update_two", "shared", "state", "circles", "my_other", "xpos"]
MN = ["mema", "memb", "my_mem", "my_other", "shared", "state", "xpos", "globa", "update_one", "mem_x", "circfill"]
LN = ["loca", "locb", "shared", "xpos", "my_mem", "state"]
TN = ["tbl", "my_env", "objs", "shared"]
BN = ["circfill", "rectfill", "add", "sin", "printh", "music", "cartdata", "rnd", "btn"]


class Gen:
    def __init__(m, rng, hints):
        m.rng, m.hints, m.depth = rng, hints, 0
        m.inenv = False
        m.used = {}

    def hint(m, kinds, p=0.08):
        if m.rng.random() >= p * m.hints:
            return ""
        k = m.rng.choice(kinds)
        if k == "rename":
            m.used["rename"] = m.used.get("rename", 0) + 1
            k = "rename::rn%d" % m.used["rename"]
        old = {"preserve": "string", "preserve-keys": "string-keys", "global": "nameof", "member": "memberof"}
        if m.rng.random() < 0.1:
            k = old.get(k, k)
        return "--[[" + m.rng.choice(["$", "$", ""]) + k + "]]"

    def g(m):
        return m.hint(["preserve", "global", "member"]) + m.rng.choice(GN)

    def mem(m):
        return m.hint(["preserve", "global", "member"]) + m.rng.choice(MN)

    def tab(m):
        r = m.rng.random()
        if r < 0.1:
            return m.g()
        if r < 0.2:
            return m.rng.choice(LN)
        return m.hint(["preserve-keys", "global-keys", "member-keys"], 0.02) + m.rng.choice(TN)

    def bi(m):
        if m.inenv:
            return "foo"
        return m.hint(["preserve"], 0.1) + m.rng.choice(BN)

    def e(m):
        m.depth += 1
        try:
            r = m.rng.random()
            if m.depth > 3 or r < 0.2:
                return m.rng.choice(["1", "'shared'", "nil", "2.5", "'my_mem'"])
            if r < 0.4:
                return m.g()
            if r < 0.6:
                return m.tab() + "." + m.mem()
            if r < 0.7:
                return m.rng.choice(LN)
            if r < 0.8:
                return m.ctor()
            if r < 0.85:
                return f"{m.bi()}({m.e()})"
            if r < 0.9:
                return f"{m.tab()}.{m.mem()}.{m.mem()}"
            if r < 0.93:
                return "_ENV." + m.rng.choice(GN + BN[:3]) if not m.inenv else m.g()
            return f"function({m.rng.choice(LN)}) {m.stmt()} end"
        finally:
            m.depth -= 1

    def ctor(m, own=True):
        items = []
        for _ in range(m.rng.choice([0, 1, 2, 3])):
            items.append(m.rng.choice([lambda: f"{m.mem()}={m.e()}", lambda: f"{m.mem()}={m.e()}", lambda: m.e(), lambda: f"[{m.e()}]={m.e()}"])())
        return (m.hint(["preserve-keys", "global-keys", "member-keys"]) if own else "") + "{" + ",".join(items) + "}"

    def stmt(m):
        m.depth += 1
        try:
            R = m.rng
            if m.depth > 4:
                return f"{m.g()}={m.e()} "
            kh = lambda: m.hint(["preserve-keys", "global-keys", "member-keys"], 0.3)
            return R.choice([
                lambda: f"{m.g()}={m.e()}", lambda: f"{m.g()}={m.e()}", lambda: f"{m.g()}+=1", lambda: f"local {m.hint(['rename'])}{R.choice(LN)}={m.e()}",
                lambda: f"{m.tab()}.{m.mem()}={m.e()}", lambda: f"{kh()}{R.choice(TN)}={m.ctor()}", lambda: f"local {kh()}{R.choice(TN)}={m.ctor()}",
                lambda: f"{R.choice(TN)},{m.g()}={m.ctor()},{m.ctor()}", lambda: f"{m.tab()}:{m.mem()}({m.e()})", lambda: f"function {m.g()}({m.hint(['rename'])}{R.choice(LN)}) {m.stmt()} end",
                lambda: f"function {R.choice(TN)}.{m.mem()}() {m.stmt()} end", lambda: f"function {R.choice(TN)}:{m.mem()}() {m.stmt()} return self.{m.mem()} end",
                lambda: f"{m.bi()}({m.e()},{m.e()})", lambda: f"for {R.choice(LN)} in all({m.e()}) do {m.stmt()} {m.stmt()} end" if not m.inenv else "", lambda: f"for {R.choice(LN)}=1,3 do {m.stmt()} end",
                lambda: f"if {m.e()} then {m.stmt()} else {m.stmt()} end", lambda: m.env(), lambda: m.env(), lambda: "_ENV.%s=%s" % (R.choice(GN), m.e()) if not m.inenv else "",
                lambda: f"local function {R.choice(LN)}({R.choice(LN)}) {m.stmt()} end", lambda: f"do goto l{m.depth}x ::l{m.depth}x:: end", lambda: f"function _update() {m.stmt()} end" if not m.inenv else "",
                lambda: f"{m.hint(['rename'], 0.3)}{R.choice(GN)}={m.e()}"])()
        finally:
            m.depth -= 1

    def env(m):
        if m.inenv:
            return ""
        m.inenv = True
        h = m.hint(["global-keys", "member-keys", "preserve-keys"], 0.5)
        r = m.rng.choice([0, 1, 2])
        if r == 0:
            s = f"do local {h}_ENV={m.ctor()} {m.stmt()} {m.stmt()} end"
        elif r == 1:
            s = f"local function {m.rng.choice(LN)}({h}_ENV) {m.stmt()} {m.stmt()} end"
        else:
            s = f"for {h}_ENV in nil do {m.stmt()} {m.stmt()} end"
        m.inenv = False
        return s

    def program(m):
        n = m.rng.choice([3, 6, 12, 25])
        return "\n".join(m.stmt() for _ in range(n))


class Rules:
    """preserve rules, as documented. verdict: True (kept) / False (not kept) / None (no rule)"""

    def __init__(m):
        m.g, m.m = [], []
        m.as_globals = False

    def add(m, rule):
        val = True
        if rule[0] == "!":
            val, rule = False, rule[1:]
        if rule in ("*=*.*", "*.*=*"):
            m.as_globals = True
            return
        if "." in rule:
            m.m.append((rule.split(".", 1), val))
        else:
            m.g.append((rule, val))

    def glob(m, name, base):
        star = [v for r, v in m.g if r == "*"]
        exact = [v for r, v in m.g if r == name]
        part = [v for r, v in m.g if "*" in r and r != "*" and fnmatch.fnmatchcase(name, r)]
        v = exact[-1] if exact else True if base else (star[-1] if star else None)
        if v is False or False in part:
            return False
        return True if part else bool(v)

    def member(m, table, name, base):
        def sel(t, n):
            x = [v for (rt, rn), v in m.m if rt == t and rn == n]
            return x[-1] if x else None
        v = sel(table, name)
        for alt in ((table, "*"), ("*", name)):
            if v is None:
                v = sel(*alt)
                if v is None and alt[0] == "*" and base:
                    v = True
        if v is None:
            v = sel("*", "*")
        part = [val for (rt, rn), val in m.m if ("*" in rt and rt != "*" or "*" in rn and rn != "*") and fnmatch.fnmatchcase(table, rt) and fnmatch.fnmatchcase(name, rn)]
        if v is False or False in part:
            return False
        return True if part else bool(v)


def ambiguous(rules):
    """rule lists whose outcome the documentation does not settle"""
    seen = {}
    for r in rules:
        n = r.lstrip("!")
        if seen.setdefault(n, r[0] == "!") != (r[0] == "!"):
            return True
    return False


def rand_rules(rng):
    names = GN + BN + ["update_*", "my_*", "*fill", "glob?", "*o*", "_*", "u*one"]
    names = [n for n in names if "?" not in n]
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        k = rng.random()
        if k < 0.4:
            r = rng.choice(names)
        elif k < 0.6:
            r = "*." + rng.choice(MN + ["my_*", "mem*", "*"])
        elif k < 0.75:
            r = rng.choice(TN) + ".*"
        elif k < 0.9:
            r = rng.choice(TN + ["globa", "loca"]) + "." + rng.choice(MN + ["my_*", "*a"])
        elif k < 0.95:
            r = rng.choice(["my_*", "*b*"]) + "." + rng.choice(MN + ["my_*", "*"])
        else:
            r = rng.choice(["*", "*.*"])
        if rng.random() < 0.3:
            r = "!" + r
        out.append(r)
    if rng.random() < 0.1:
        out += ["*.*", "!*." + rng.choice(MN + ["my_*"])]
    if rng.random() < 0.1:
        out += ["*", "!" + rng.choice(GN + ["my_*"])]
    return out


HINT = re.compile(r"--\[\[\$?([a-z-]+(?:::\w+)?)\]\]$")
KEYS = {"preserve-keys": "keep", "string-keys": "keep", "global-keys": "global", "member-keys": "member"}
OCC = {"preserve": "keep", "string": "keep", "global": "global", "nameof": "global", "member": "member", "memberof": "member"}


class Model:
    """what the documentation says about each name token of a program"""

    def __init__(m, src, rules, hints, builtins, locals_, p, comments):
        m.p, m.rules, m.builtins, m.locals = p, rules, builtins, locals_
        T = p.toks
        m.decided = 0
        byend = {}
        for c in comments:
            mt = HINT.match(src[c[0]:c[1]])
            if mt:
                byend[c[1]] = mt[1]
        m.occ, m.keyvar, m.keyctor, m.ren = {}, {}, {}, {}
        for i, t in enumerate(T):
            h = byend.get(t.a) if hints else None
            if not h:
                continue
            if h in OCC:
                m.occ[i] = OCC[h]
            elif h in KEYS:
                if t.s == "{":
                    m.keyctor[i] = KEYS[h]
                else:
                    m.keyvar[m.ident(i)] = KEYS[h]
            elif h.startswith("rename::"):
                m.ren[m.ident(i)] = h[8:]
        # members: table name and variable, constructor
        m.table = {}
        for n in plua.walk(p.root):
            if n.k == "member":
                m.put(n.tok, n.obj)
            elif n.k == "call" and n.method is not None:
                m.put(n.method, n.func)
            elif n.k == "funcstat":
                if len(n.names) > 1:
                    m.put2(n.names[1], n.names[0])
                elif n.method is not None and n.method not in n.names:
                    m.put2(n.method, n.names[0])
            if n.k in ("assign", "local"):
                for j, v in enumerate(n.vals or ()):
                    if v.k == "table":
                        own = None
                        if n.k == "local":
                            if j < len(n.vars):
                                own = (n.vars[j].name, ("local", n.vars[j]))
                        elif j < len(n.targets) and n.targets[j].k == "var":
                            own = (T[n.targets[j].tok].s, m.ident(n.targets[j].tok))
                        for kind, ni, _ in v.items:
                            if kind == "name":
                                m.table[ni] = (own or ("", None)) + (m.keyctor.get(v.a),)
            if n.k == "table":
                for kind, ni, _ in n.items:
                    if kind == "name" and ni not in m.table:
                        m.table[ni] = ("", None, m.keyctor.get(n.a))

    def put(m, tok, obj):
        if obj.k == "var":
            m.put2(tok, obj.tok)

    def put2(m, tok, vtok):
        m.table[tok] = (m.p.toks[vtok].s, m.ident(vtok), None)

    def ident(m, i):
        """the variable a name token denotes"""
        r = m.p.refs.get(i)
        s = m.p.toks[i].s
        if r is None:
            return None
        if r[0] == "local":
            return ("local", r[1])
        if r[0] == "global":
            return ("locbuiltin" if s in m.locals else "global", s)
        if r[0] == "env":
            return ("env",)
        return (r[0], s)

    def classify(m, i):
        """'keep' | ('global'|'member'|'locbuiltin'|'local'|'label', entity) | ('fixed', name)"""
        t, r = m.p.toks[i], m.p.refs[i]
        s = t.s
        if r[0] in ("env", "label"):
            return "keep" if r[0] == "env" else ("label", r[1])
        x = m.ident(i)
        if x in m.ren and r[0] != "member":
            m.decided += 1
            return ("fixed", m.ren[x])
        kind, explicit = r[0], False
        if i in m.occ:
            m.decided += 1
            if m.occ[i] == "keep":
                return "keep"
            kind, explicit = m.occ[i], True
        if kind == "local":
            return "keep" if s == "_ENV" or getattr(r[1], "kind", "") == "self" else ("local", r[1])
        if kind == "member":
            table, var, ctor = m.table.get(i, ("", None, None))
            if r[0] != "member":
                table, var, ctor = "", None, None
            keys = ctor or m.keyvar.get(var)
            if keys and not explicit:
                m.decided += 1
                explicit = True
                kind = keys
                if kind == "keep":
                    return "keep"
            if kind == "member":
                if m.rules.member(table, s, s in META):
                    m.decided += 1
                    return "keep"
                if table == "_ENV" and not explicit:
                    kind = "global"
                elif m.rules.as_globals:
                    m.decided += 1
                    kind = "global"
        if kind == "global":
            if r[0] != "global" and ("global", s) in m.ren:
                m.decided += 1
                return ("fixed", m.ren["global", s])
            if not explicit and r[0] == "global":
                envvar = r[1] if s not in m.locals else None
                keys = envvar is not None and m.keyvar.get(("local", envvar))
                if keys:
                    m.decided += 1
                    if keys == "keep":
                        return "keep"
                    if keys == "member":
                        if m.rules.member("", s, s in META):
                            return "keep"
                        if not m.rules.as_globals:
                            return ("member", s)
                        return "keep" if m.rules.glob(s, s in m.builtins) else ("global", s)
            if r[0] == "global" and s in m.locals and not explicit:
                return "keep" if m.rules.glob(s, True) else ("locbuiltin", s)
            return "keep" if m.rules.glob(s, s in m.builtins) else ("global", s)
        return (kind, s)


def judge(rec, src, out, args, model, builtins):
    try:
        a, b = aligned(src, out)
    except (Bad, plua.LuaErr) as e:
        rec.violation("structure", f"{e} under {' '.join(args)}"[:300], src=src, out=out, args=args)
        return
    maps = {k: OneToOne(k) for k in ("global", "member", "local", "locbuiltin", "label")}
    kept = {"global": set(), "member": set()}
    fresh = {"global": {}, "member": {}}
    try:
        for i, t in enumerate(a.toks):
            if t.t != "name":
                continue
            o, n = t.s, b.toks[i].s
            pos = f" (token {i}: {' '.join(x.s for x in a.toks[max(0, i - 4):i + 4])!r})"
            w = model.classify(i)
            kind = a.refs[i][0]
            if kind == "global" and o not in model.locals and w[0] != "fixed" and b.refs[i][0] != kind:
                raise Bad(f"global {o!r} became a {b.refs[i][0]} {n!r}{pos}")
            if w == "keep":
                rec.event("kept")
                if o != n:
                    raise Bad(f"{kind} {o!r} should have been kept but became {n!r}{pos}")
                if kind in kept:
                    kept[kind].add(n)
                continue
            if w[0] == "fixed":
                rec.event("fixed")
                if n != w[1]:
                    raise Bad(f"{kind} {o!r} should have become {w[1]!r}, not {n!r}{pos}")
                continue
            rec.event("renamed_" + w[0])
            if len(o) >= 3 and o == n and w[0] != "label":
                raise Bad(f"{kind} {o!r} should have been renamed (as {w[0]}) but was kept{pos}")
            if w[0] in ("local", "label"):
                if b.refs[i][0] != kind:
                    raise Bad(f"{kind} {o!r} became a {b.refs[i][0]} {n!r}{pos}")
                maps[w[0]].add(w[1], b.refs[i][1], pos)
            else:
                maps[w[0]].add(w[1], n, pos)
            if w[0] in fresh:
                fresh[w[0]][n] = pos
        for k in fresh:
            for n in fresh[k]:
                if n in kept[k] or k == "global" and n in builtins:
                    raise Bad(f"a {k} was renamed to {n!r}, which is taken{fresh[k][n]}")
    except Bad as e:
        rec.violation("rule", f"{e} under {' '.join(args)}"[:400], src=src, out=out, args=args)


def run(rng, rec, hints):
    g = Gen(rng, hints)
    src = g.program()
    rules = rand_rules(rng) if rng.random() < (0.4 if hints else 1) else []
    as_globals = rng.random() < 0.12
    builtins, locals_ = set(BUILTINS | CALLBACKS), set(luarun.LOCALS)
    args = ["--minify"] + rng.choice(mini.FOCI) + ["--no-minify-tokens", "--no-minify-consts", "--no-minify-reorder"]
    R = Rules()
    cmt, opt = [], []
    for r in rules:
        (cmt if rng.random() < 0.4 else opt).append(r)
    # rules from the command line come first
    nop = [r[1:] for r in opt if r[0] == "!" and rng.random() < 0.3 and "*" not in r]
    opt2 = [r for r in opt if not (r[0] == "!" and r[1:] in nop)] + ["!" + r for r in nop]
    if ambiguous(opt2 + cmt):
        rec.skip("ambiguous rules")
        return
    ignore = rng.random() < 0.06
    if opt2:
        pos = [r for r in opt2 if not (r[0] == "!" and r[1:] in nop)]
        if pos:
            k = rng.randrange(1, len(pos) + 1)
            sep = lambda: rng.choice([",", ", ", " ", ",  "])
            args += ["--preserve", "".join(r + sep() for r in pos[:k]).rstrip(", ")]
            if pos[k:]:
                args += ["-p", ",".join(pos[k:])]
        if nop:
            args += ["--no-preserve", ",".join(nop)]
    for r in opt2:
        R.add(r)
    if as_globals:
        R.as_globals = True
        if rng.random() < 0.5:
            args += ["--rename-members-as-globals"]
        else:
            args += ["--preserve", "*=*.*"]
    if cmt:
        if not ignore:
            for r in cmt:
                R.add(r)
        line = f"--{rng.choice(['$', ''])}preserve: " + ", ".join(cmt) + "\n"
        if rng.random() < 0.3:
            line = f"--[[{rng.choice(['$', ''])}preserve: " + ", ".join(cmt) + "]]\n"
        L = src.split("\n")
        L.insert(rng.randrange(len(L) + 1), line[:-1])
        src = "\n".join(L)
    if ignore:
        args.append("--ignore-hints")
    if not hints or rng.random() < 0.3:
        k = rng.random()
        if k < 0.2:
            ns = rng.sample(GN, 2)
            args += ["--builtin", ",".join(ns)]
            builtins |= set(ns)
        elif k < 0.4:
            ns = rng.sample(BN, 2)
            args += ["--not-builtin", ", ".join(ns)]
            builtins -= set(ns)
            locals_ -= set(ns)
        elif k < 0.5:
            ns = rng.sample(GN, 1)
            args += ["--local-builtin", ",".join(ns)]
            builtins |= set(ns)
            locals_ |= set(ns)
        elif k < 0.6:
            args += ["--global-builtins-only"]
            locals_ = set()
    comments = []
    try:
        p = plua.parse(src)
        plua.lex(src, comments)
    except plua.LuaErr as e:
        rec.skip(f"not valid: {str(e)[:30]}")
        return
    model = Model(src, R, not ignore, builtins, locals_, p, comments)
    r, out = mini.transform(src, args)
    if r.crashed or r.rc != 0 or out is None:
        rec.violation("tool-crash" if r.crashed else "rejected", f"valid program refused under {' '.join(args)}", src=src, **r.brief())
        return
    judge(rec, src, out, args, model, builtins)
    rec.event("decided", model.decided)
    rec.eval((src, tuple(args)), nontrivial=model.decided > 0 or bool(rules))
    rec.sample([args, src[:200]])


def rules(rng, rec):
    run(rng, rec, 0)


def hints(rng, rec):
    run(rng, rec, 1)


FAMILIES = [Family("rules", rules, 7000, 80000, need=["kept", "renamed_global", "renamed_member", "renamed_local", "renamed_locbuiltin"]),
            Family("hints", hints, 8000, 100000, need=["kept", "fixed", "renamed_global", "renamed_member", "decided"])]

if __name__ == "__main__":
    sys.exit(core.main(sys.modules[__name__]))
