"""C31: --lint reports exactly the documented problems, at their locations."""
import os, re, sys
from collections import Counter
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, luagen, luarun, mini, plua, soup
from vlib.core import Family
from vlib.tool import cli, Scratch, p8_to_uni
import p06

PROP = "C31"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: the reports of real --lint runs are compared with the problems found by an independent resolver"
RULE = "a case counts as distinct when the (program, options) pair is new"
ASSUMPTIONS = ["two equal names in one local statement or parameter list may or may not be reported as duplicates (undocumented)",
               "columns are counted in characters of the P8SCII text",
               "names are not hidden in strings or read through _ENV by hints"]
LOCALS = set(luarun.LOCALS)
BUILTINS = p06.BUILTINS | set(luagen.BUILTINS_USED) | set(soup.BUILTINS_G) | {"_ENV"} | set(map(chr, range(0x80, 0x9a)))


class P(plua.Parser):
    """a parser that also notes what linting needs"""

    def __init__(m, src, kinds):
        super().__init__(src)
        m.kinds = kinds         # {offset of a function keyword: func hint}
        m.infunc = {}           # token -> enclosing function
        m.prev = {}             # declaring token or ('self', token) -> (previous Var, relation)
        m.key = {}              # Var -> its key in prev
        m.group = {}            # Var -> declaring statement
        m.labs = {}
        m.prints = []           # (token of a '?', local print, local _ENV)
        m.compound, m.ftargets, m.fortoks, m.lastparam, m.params = set(), set(), set(), set(), set()

    def declare(m, ti, kind):
        name = m.toks[ti].s
        if kind == "for":
            m.fortoks.add(ti)
        s, found = m.scope, None
        while s and not found:
            for v in reversed(s.vars):
                if v.name == name:
                    rel = ("top" if v.func is m.funcs[0] else "func") if v.func is not m.func else \
                        "same" if s is m.scope or (v.tok in m.fortoks and m.scope.parent is s) else "scope"
                    found = v, rel
                    break
            s = s.parent
        if found:
            m.prev[ti] = found
        v = super().declare(ti, kind)
        m.key[v] = ti
        return v

    def var_ref(m, ti):
        m.infunc[ti] = m.func
        return super().var_ref(ti)

    def print_(m):
        m.prints.append((m.p, m.scope.find("print"), m.scope.find("_ENV")))
        return super().print_()

    def assign_mark(m, e, compound=False):
        super().assign_mark(e, compound)
        if e.k == "var" and compound:
            m.compound.add(e.tok)

    def stmt(m):
        s = super().stmt()
        if s.k == "funcstat" and len(s.names) == 1:
            m.ftargets.add(s.names[0])
        elif s.k == "label":
            m.labs[s.tok] = m.scope
        elif s.k in ("local", "fornum", "forin"):
            for v in s.vars:
                m.group[v] = s
        return s

    def funcbody(m, a, method, names):
        outer, sp = m.func, m.scope.find("self") if method else None
        f = super().funcbody(a, method, names)
        f.hint = m.kinds.get(m.toks[a].a)
        f.outer = outer
        for v in f.params:
            m.group[v] = f
            m.params.add(v.tok)
        if f.params and not f.vararg:
            m.lastparam.add(f.params[-1].tok)
        if method:
            m.group[f.self] = f
            m.key[f.self] = ("self", names[-1])
            if sp:
                m.prev[m.key[f.self]] = sp, "top" if sp.func is m.funcs[0] else "func"
        return f


def is_init(p, f):
    if f is p.funcs[0]:
        return True
    if f.hint is not None:
        return f.hint == "_init"
    return bool(f.names) and len(f.names) == 1 and p.toks[f.names[0]].s == "_init" and f.outer is p.funcs[0]


DUP = {"top": "a local declared at the top level", "func": "a local declared in a parent function",
       "scope": "a local declared in a parent scope", "same": "a local declared in the same scope"}


def expected(p, o, customs, useds, builtins, locs):
    """(Counter of required (token key, message), Counter of optional ones)"""
    custom, used, assigned = set(customs), set(useds), set()
    lused, lassigned, labused, globs = set(), set(), set(), set()
    for i, t in enumerate(p.toks):
        r = p.refs.get(i)
        if r is None:
            continue
        asg = r[2] in ("assign",)
        if r[0] == "env" or r[0] == "global" and (r[1] is None or t.s in locs):
            (assigned if asg else used).add(t.s)
            globs.add(i)
            if asg and i not in p.compound and is_init(p, p.infunc[i]):
                custom.add(t.s)
        elif r[0] == "local" and r[2] != "decl":
            (lassigned if asg else lused).add(r[1])
        elif r[0] == "label" and r[2] == "use":
            labused.add(r[1])
    for i, v, env in p.prints:      # '?' uses print
        if v:
            lused.add(v)
        elif env is None or "print" in locs:
            used.add("print")
            globs.add(i)
    req, opt = Counter(), Counter()

    def dups(v, n, key):
        if not o["duplicate"] or n in ("_", "_ENV"):
            return
        pv = p.prev.get(key)
        while pv and pv[0] in p.group and p.group[pv[0]] is p.group.get(v):
            opt[key, f"Local '{n}' has the same name as a local declared in the same scope"] += 1
            pv = p.prev.get(p.key[pv[0]])
        if pv:
            req[key, f"Local '{n}' has the same name as " + DUP[pv[1]]] += 1
        elif o["duplicate-global"]:
            if n in custom:
                req[key, f"Local '{n}' has the same name as a global"] += 1
            elif n in used or n in assigned:
                req[key, f"Local '{n}' has the same name as a built-in global used elsewhere in the cart"] += 1

    for i, t in enumerate(p.toks):
        r = p.refs.get(i)
        n = t.s
        if t.s == "?" and i in globs:
            if o["undefined"] and "print" not in custom and "print" not in builtins:
                req[i, "Identifier 'print' not found"] += 1
            continue
        if r is None:
            continue
        if r[0] == "local" and r[2] == "decl":
            v = r[1]
            dups(v, n, i)
            if o["unused"] and v not in lused and n[0] != "_":
                if v in lassigned:
                    req[i, f"Local '{n}' is only ever assigned to, never used"] += 1
                elif i not in p.params or i in p.lastparam:
                    req[i, f"Local '{n}' isn't used"] += 1
        elif r[0] == "label" and r[2] == "decl":
            if o["duplicate"] and n != "_":
                sc = p.labs[i]
                s = sc.parent
                while s:
                    if n in s.labels:
                        rel = "in a parent scope" if s.func is sc.func else "at the top level" if s.func is p.funcs[0] else "in a parent function"
                        req[i, f"Label '{n}' has the same name as a label declared {rel}"] += 1
                        break
                    s = s.parent
            if o["unused"] and i not in labused and n[0] != "_":
                req[i, f"Label '{n}' isn't used"] += 1
        elif i in globs:
            asg = r[2] == "assign" and i not in p.compound
            if o["undefined"] and n not in custom:
                hint = " - did you mean to use 'local function'" if i in p.ftargets else " - did you mean to use 'local'"
                if n in builtins:
                    if asg:
                        req[i, f"Built-in global '{n}' assigned outside _init{hint}?"] += 1
                elif asg:
                    req[i, f"Identifier '{n}' not found{hint} to define it?"] += 1
                else:
                    req[i, f"Identifier '{n}' not found"] += 1
            if o["unused"] and o["unused-global"] and n not in used and n[0] != "_":
                req[i, f"Global '{n}' is only ever assigned to, never used"] += 1
    for f in p.funcs[1:]:
        if f.method:
            key = p.key[f.self]
            dups(f.self, "self", key)
            if o["unused"] and f.self not in lused and f.self in lassigned:
                req[key, "Local 'self' is only ever assigned to, never used"] += 1
    return req, opt


KIND = {"not found": "undefined", "assigned outside": "builtin assigned", "only ever assigned": "only assigned", "isn't used": "unused",
        "same name as a global": "duplicate global", "built-in global used": "duplicate global", "at the top level": "duplicate top",
        "in a parent function": "duplicate function", "in a parent scope": "duplicate scope", "in the same scope": "duplicate same"}


def kind(msg):
    return msg.split()[0] + " " + next(v for k, v in KIND.items() if k in msg)


def lint(rng, rec):
    k = rng.random()
    if k < 0.75:
        src = soup.soup(rng)
    else:
        src = luagen.program(rng, mode="safe", size=rng.choice([10, 30]))
    p0 = plua.parse(src)
    if rng.random() < 0.3:      # extra labels
        for _ in range(rng.choice([1, 2, 4])):
            at = rng.choice([t.a for t in p0.toks if t.nl] or [0])
            new = src[:at] + f"::{rng.choice(['lb', 'lc', '_lc', '_', 'ld'])}::" + rng.choice(["", "\n"]) + src[at:]
            try:
                p0 = plua.parse(new)
                src = new
            except plua.LuaErr:
                pass
    names = sorted({p0.toks[i].s for i, r in p0.refs.items() if r[0] == "global"} - {"_ENV"})
    args, customs, useds, kinds = [], set(), set(), {}
    o = dict.fromkeys(("unused", "unused-global", "duplicate", "duplicate-global", "undefined"), True)
    for n in o:
        if rng.random() < 0.12:
            o[n] = False
            args.append("--no-lint-" + n)
    builtins = set(BUILTINS)
    if rng.random() < 0.3 and names:
        c = rng.sample(names, min(len(names), rng.choice([1, 3, 10])))
        customs.update(c)
        args += ["--lint-global", rng.choice([",", ", ", " "]).join(map(p8_to_uni, c))] if rng.random() < 0.7 else ["--lint-global"] * 0 or [x for n in c for x in ("--lint-global", p8_to_uni(n))]
    if rng.random() < 0.12 and names:
        n = rng.choice(names)
        builtins.add(n)
        args += ["--builtin", p8_to_uni(n)]
    if rng.random() < 0.12:
        n = rng.choice([x for x in names if x in builtins] or ["rnd"])
        if n not in p06.CALLBACKS:
            builtins.discard(n)
            args += ["--not-builtin", p8_to_uni(n)]
    # hints
    ins = []
    if rng.random() < 0.4:
        toks = p0.toks[:-1]
        for _ in range(rng.choice([1, 2, 4])):
            fs = [i for i, t in enumerate(toks) if t.t == "kw" and t.s == "function" and not (i and toks[i - 1].s == "local" and toks[i - 1].t == "kw")]
            w = rng.random()
            pre = rng.choice(["$lint:", "$lint: ", "lint:", "lint: "])
            if w < 0.35 and fs:
                i = rng.choice(fs)
                if i in kinds:
                    continue
                kinds[i] = rng.choice(["_init", "_init", "_init", "_draw"])
                ins.append((toks[i].a, f"--[[{pre}func::{kinds[i]}]]"))
            elif names:
                c = rng.sample(names, min(len(names), rng.choice([1, 2, 5])))
                at = rng.choice([t.a for t in toks] or [0])
                us = {n for n in c if rng.random() < 0.5}
                useds |= us
                customs |= set(c) - us
                ins.append((at, f"--[[{pre}{rng.choice([',', ', ', ' '])[:2].join(('used::' + n) if n in us else n for n in c)}]]"))
    out, last = [], 0
    for at, t in sorted(ins, key=lambda x: x[0]):
        out.append(src[last:at] + (" " if src[at - 1:at] == "-" else "") + t)
        last = at
    code = "".join(out) + src[last:]
    ignore = bool(ins) and rng.random() < 0.1
    if ignore:
        args.append("--ignore-hints")
    code = code.replace("\r", " ") if "\r" in code else code
    try:
        p = P(code, {})
        fns = [t.a for t in p.toks if t.t == "kw" and t.s == "function"]
        f0 = [i for i, t in enumerate(p0.toks) if t.t == "kw" and t.s == "function"]
        p.kinds = {} if ignore else {fns[f0.index(i)]: kk for i, kk in kinds.items()}
        p.root = p.parse()
    except plua.LuaErr:
        rec.skip("hint changed the program")
        return
    if ignore:     # only command line
        customs = set(a for i, x in enumerate(args) if x == "--lint-global" for a in re.split(r"[, ]+", uni_names(args[i + 1])))
        useds = set()
    nofail = rng.random() < 0.15
    if nofail:
        args.append("--no-lint-fail")
    locs = LOCALS & builtins
    req, opt = expected(p, o, customs, useds, builtins, locs)
    with Scratch() as s:
        inp = s.write("in.p8", mini.p8_text(code))
        extra = rng.choice([[], [], ["--minify"], ["--count"], ["--unminify"]])
        hasout = rng.random() < 0.5 or bool(extra and extra != ["--count"])
        cmd = [inp] + ([s.path("out.p8")] if hasout else []) + ["--lint"] + extra + args
        r = cli(cmd)
        detail = dict(src=code, args=cmd[1:])
        if r.crashed:
            rec.violation("tool-crash", f"{cmd[1:]} failed", **detail, **r.brief())
            return
        pos = {}
        for i, t in enumerate(p.toks):
            ls = code.rfind("\n", 0, t.a) + 1
            pos[i] = (code.count("\n", 0, t.a) + 4, t.a - ls + 1)
            if i:
                ls = code.rfind("\n", 0, p.toks[i - 1].b) + 1
                pos["self", i - 1] = (code.count("\n", 0, p.toks[i - 1].b) + 4, p.toks[i - 1].b - ls + 1)
        want = Counter((pos[kk], m) for (kk, m), c in req.items() for _ in range(c))
        may = Counter((pos[kk], m) for (kk, m), c in opt.items() for _ in range(c))
        got, head = Counter(), None
        for l in r.out.split("\n"):
            m = re.fullmatch(r".*?in\.p8:(\d+):(\d+): (.*)", l)
            if m:
                got[(int(m[1]), int(m[2])), uni_names(m[3])] += 1
            elif l and not (l == "Lint warnings:" and head is None) and not re.match(r"(tokens|chars|compressed): ", l):
                rec.violation("output", f"unexpected line {l!r}", **detail, **r.brief())
                return
            elif l == "Lint warnings:":
                head = True
        miss, more = want - got, got - want - may
        if miss or more:
            x = sorted(miss or more)[0]
            rec.violation("missing" if miss else "unfounded", f"{'no' if miss else 'unfounded'} report: {x}", **detail, miss=sorted(miss)[:10], more=sorted(more)[:10])
            return
        for (_, m), c in want.items():
            rec.event(kind(m), c)
        for (_, m), c in got.items():
            pass
        bad = bool(got)
        if r.rc != (2 if bad and not nofail else 0):
            rec.violation("exit-code", f"exit code {r.rc} with {len(got)} reports", **detail, **r.brief())
            return
        if hasout:
            wrote = s.exists("out.p8")
            if wrote != (not bad or nofail):
                rec.violation("written", f"the output was {'' if wrote else 'not '}written with {len(got)} reports, --no-lint-fail {nofail}", **detail)
                return
            if wrote and not extra and s.read("out.p8") is not None and mini.p8_code(s.read("out.p8").decode("utf8")) != code:
                rec.violation("changed", "linting changed the code", **detail)
        if not got:
            rec.event("clean")
    rec.eval((code, tuple(args)))
    rec.sample([args, sorted(want)[:5]])


def uni_names(t):
    from vlib.tool import uni_to_p8
    return uni_to_p8(t)


FAMILIES = [Family("lint", lint, 3000, 120000, need=["Identifier undefined", "Built-in builtin assigned", "Global only assigned", "Local only assigned", "Local unused",
                                                     "Label unused", "Local duplicate global", "Local duplicate top", "Local duplicate function", "Local duplicate scope",
                                                     "Local duplicate same", "Label duplicate scope", "clean"])]

if __name__ == "__main__":
    sys.exit(core.main(sys.modules[__name__]))
