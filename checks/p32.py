"""C32: diagnostics point at the real source position."""
import os, re, sys
from collections import Counter
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, includes, luagen, mini, plua, soup
from vlib.core import Family
from vlib.tool import cli, Scratch, p8_to_uni, uni_to_p8
import p31

PROP = "C32"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: the positions in real error and warning reports are compared with the tracked origin of each character in projects of many files"
RULE = "a case counts as distinct when the (expanded program, format) pair is new"
ASSUMPTIONS = ["columns are counted in characters of the P8SCII text", "png carts have no line structure of their own: their code's lines are counted from 1",
               "positions in a single tab of an included png cart are not judged"]


def where(f, off, tabbed, real_tabs=True):
    """(line, col) or (tab, line, col) of an offset in a file's own code"""
    code = f.code()
    if not tabbed:
        return code.count("\n", 0, off) + 1 + f.first_line(), off - (code.rfind("\n", 0, off) + 1) + 1
    start = tab = 0
    while True:
        e = code.find(includes.TABBRK, start)
        if e < 0 or e >= off:
            break
        start = e + len(includes.TABBRK)
        tab += 1
    return tab, code.count("\n", start, off) + 1, off - max(code.rfind("\n", 0, off) + 1, start) + 1


def parse_out(out, tabbed):
    res, bad = [], []
    for l in out.split("\n"):
        m = re.fullmatch(r"(.*) \(tab ([0-9A-F]), line (\d+), col (\d+)\): (.*)" if tabbed else r"(.*?):(\d+):(\d+): (.*)", l) if not tabbed else \
            re.fullmatch(r"(.*) \(tab ([0-9A-F]), line (\d+), col (\d+)\): (.*)", l)
        if not tabbed:
            m = re.fullmatch(r"(.*):(\d+):(\d+): (.*?)", l)
            # (the path may hold colons itself, and so may the message)
            m = re.match(r"(.*?\.(?:lua|p8|png)|.*?noext):(\d+):(\d+): (.*)", l, re.S) if m else None
        if m:
            res.append((m[1], tuple(int(x, 16) if tabbed and i == 0 else int(x) for i, x in enumerate(m.groups()[1:-1])), m[m.lastindex]))
        elif l and l not in ("Lint warnings:", "Compilation errors:"):
            bad.append(l)
    return res, bad


def project(rng, bad):
    """a project of complete pieces of code; bad: with an error somewhere"""
    chunks = []
    n = rng.choice([1, 2, 4, 6])
    for i in range(n):
        k = rng.random()
        c = luagen.program(rng, mode="safe", size=8) if k < 0.2 else soup.soup(rng) if k < 0.5 else \
            rng.choice(["function f(a,b)\n\tc=1\n  return d\nend", "local zz,\x85x=1,2\ng1()", "for i=1,2 do\nlocal i=5\nend", "x=[[\n\n]] y=z", "if (q) r()\ns()", "--[[\n\n\n]] u()", "v='a\\\n\\\nb' w()", "?x,\x8b"])
        c = c.replace("\r", "").strip("\n")
        try:
            plua.parse(c)
        except plua.LuaErr:
            continue
        if re.search(r"\breturn\b[^\n]*$", c):
            continue
        chunks.append(c)
    return includes.Project(rng, chunks or ["x=y"], tricky=rng.random() < 0.3)


def prepare(rng, rec, pr, s):
    exp = pr.main.expand()
    code = "".join(c for c, _ in exp)
    if any(x in code for x in ("\r", "\0")) or any(re.search(r"^__\S*__\s*$", f.code(), re.M) for f in pr.files):
        rec.skip("not for p8 files")
        return None
    if not pr.write(s):
        rec.skip("too big for png")
        return None
    pngtab = {it[2] for f in pr.files for t in f.tabs for it in t if it[0] == "inc" and it[2].kind == "png" and it[3] is not None}
    return exp, code, pngtab


def run(rng, pr, s, args):
    fmt = rng.choice([None, "common", "absolute", "tabbed", "tabbed"])
    cmd = [pr.inp] + args + (["--error-format", fmt] if fmt else [])
    cwd = os.getcwd()
    try:
        if rng.random() < 0.3:
            os.chdir(s.path("proj"))
            cmd[0] = pr.main.name
        base = os.getcwd()
        r = cli(cmd)
    finally:
        os.chdir(cwd)
    return fmt, base, r


def path_of(rec, pr, s, p, fmt, base, detail):
    """the project's file that a reported path names"""
    if fmt == "absolute" and not os.path.isabs(p):
        rec.violation("path", f"relative path {p!r} under --error-format absolute", **detail)
        return None
    full = os.path.realpath(os.path.join(base, p))
    f = next((f for f in pr.files if os.path.realpath(s.path("proj/" + f.name)) == full), None)
    if f is None:
        rec.violation("path", f"{p!r} isn't a file of the project", **detail)
    return f


def judge(rec, f, pos, want, tabbed, detail, what, width):
    """whether a reported position is right, i.e. somewhere in the offending text. -> False after a violation"""
    if want[-1] < pos[-1] < want[-1] + width:
        pos = pos[:-1] + want[-1:]
    if pos == want:
        return True
    if tabbed and f.kind == "p8" and pos == (want[0], want[1] + f.first_line(), want[2]):
        rec.event("tabbed line with the header's lines")
        rec.violation("tabbed-line-counts-header", f"{what}: line {pos[1]} of tab {pos[0]} reported, but it's line {want[1]} of the tab", **detail)
        return True
    rec.violation("position", f"{what} is at {want} of {f.name}, but was reported at {pos}", **detail)
    return False


def lints(rng, rec):
    pr = project(rng, False)
    with Scratch() as s:
        t = prepare(rng, rec, pr, s)
        if not t:
            return
        exp, code, pngtab = t
        try:
            p = p31.P(code, {})
            p.root = p.parse()
        except plua.LuaErr:
            rec.skip("pieces don't make a program")
            return
        o = dict.fromkeys(("unused", "unused-global", "duplicate", "duplicate-global", "undefined"), True)
        req, opt = p31.expected(p, o, set(), set(), p31.BUILTINS, p31.LOCALS)
        fmt, base, r = run(rng, pr, s, ["--lint"] + rng.choice([[], [], ["--no-lint-fail", "--minify", s.path("o.p8")], ["--no-lint-fail", "--unminify", s.path("o.p8")]]))
        detail = dict(files={f.name: f.text() if f.kind != "png" else "png: " + f.code() for f in pr.files}, fmt=fmt, out=r.out[-600:])
        if r.crashed or r.rc not in (0, 2):
            rec.violation("tool-crash" if r.crashed else "rejected", "linting failed", **detail, **r.brief())
            return
        tabbed = fmt == "tabbed"
        got, bad = parse_out(r.out, tabbed)
        if bad:
            rec.violation("output", f"unexpected line {bad[0]!r}", **detail)
            return
        origin = lambda i: exp[i][1] if i < len(exp) else (exp[-1][1][0], exp[-1][1][1] + 1)
        optm = {m for (_, m) in opt}
        gotc = Counter()
        for path, pos, msg in got:
            f = path_of(rec, pr, s, path, fmt, base, detail)
            if f is None:
                return
            gotc[f, pos, uni_to_p8(msg)] += 1
        best = None
        for shift in ((0, 1) if tabbed else (0,)):
            want = Counter()
            for (key, msg), c in req.items():
                if isinstance(key, tuple):
                    f, off = origin(p.toks[key[1]].b - 1)
                    off += 1
                else:
                    f, off = origin(p.toks[key].a)
                pos = where(f, off, tabbed)
                if shift and f.kind == "p8":
                    pos = (pos[0], pos[1] + f.first_line(), pos[2])
                want[f, pos, msg] += c
            more = [k for k in gotc - want if k[0] not in pngtab and k[2] not in optm]
            less = [k for k in want - gotc if k[0] not in pngtab]
            if not more and not less:
                if shift:
                    rec.violation("tabbed-line-counts-header", "the lines reported for a tab count the lines before the code in the file", **detail)
                best = None
                break
            best = more, less
        if best:
            more, less = best
            if more:
                f, pos, msg = more[0]
                cand = [k for k in less if k[2] == msg]
                rec.violation("position", f"{msg!r} reported at {pos} of {f.name}" + (f", should be at {[(k[0].name, k[1]) for k in cand][:4]}" if cand else ", but isn't there"), **detail)
            else:
                rec.violation("missing", f"{less[0][2]} at {less[0][1]} of {less[0][0].name} wasn't reported", **detail)
            return
        for (f, pos, msg) in gotc:
            rec.event("lint " + ("tabbed" if tabbed else "") + f.kind + (" crlf" if f.crlf else ""))
            if f is not pr.main:
                rec.event("in an included file")
            if tabbed and pos[0]:
                rec.event("in a later tab")
    rec.eval((code, fmt))


def errors(rng, rec):
    """a token that can't be there, between two statements"""
    pr = project(rng, True)
    # plant it at the start of some piece's line, on its own
    spots = []
    for f in pr.files:
        for t in f.tabs:
            for k, it in enumerate(t):
                if it[0] == "text" and it[1] and it[1] not in includes.TRICKY:
                    spots.append((f, t, k))
    if not spots:
        rec.skip("no spot")
        return
    f, t, k = rng.choice(spots)
    txt = t[k][1]
    mark = rng.choice([")", "]", "}", "then", "until", "in", "end", "else", "elseif", "`", '"abc', "'", "[=x"])
    pad = rng.choice(["", "", " ", "\t ", "--[[x]]", "--[[\n\n]]", "?1,[[\n]]\n", "x='\\\n' "])
    cut = rng.choice([0, len(txt)])
    new = pad + mark + " "
    t[k] = ("text", new + "\n" + txt) if cut == 0 else ("text", txt + "\n" + new)
    base_off = (0 if cut == 0 else len(txt) + 1) + len(pad)
    with Scratch() as s:
        st = prepare(rng, rec, pr, s)
        if not st:
            return
        exp, code, pngtab = st
        # where is it in the file?
        off, found = 0, None
        for ti, tab in enumerate(f.tabs):
            if ti:
                off += len(includes.TABBRK)
            for j, it in enumerate(tab):
                if j:
                    off += 1
                if tab is t and j == k:
                    found = off + base_off
                off += len(it[1])
        at = next((i for i, (c, o) in enumerate(exp) if o == (f, found)), None)
        if at is None:
            rec.skip("not in an included tab")
            return
        if sum(1 for c, o in exp if o == (f, found)) > 1 or f in pngtab:
            rec.skip("included twice")
            return
        # the rest must be fine, and the text before it complete
        try:
            plua.parse(code[:at] + " " * len(mark) + code[at + len(mark):])
            plua.parse(code[:at])
        except plua.LuaErr:
            rec.skip("pieces don't make a program")
            return
        try:
            plua.parse(code[:at] + mark + " ")
            rec.skip("no error")
            return
        except plua.LuaErr as e:
            if e.pos is None or e.pos != at:
                rec.skip("error elsewhere")
                return
        fmt, base, r = run(rng, pr, s, rng.choice([["--lint"], ["--minify", s.path("o.p8")], ["--count"], ["--unminify", s.path("o.p8")]]))
        detail = dict(files={g.name: g.text() if g.kind != "png" else "png: " + g.code() for g in pr.files}, fmt=fmt, out=r.out[-600:], mark=mark)
        if r.crashed or r.rc != 1 or not r.out.startswith("Compilation errors:\n") or s.exists("o.p8"):
            if r.rc == 0 and "--count" in r.out or r.out.startswith("tokens:"):
                rec.skip("only counted")
                return
            rec.violation("tool-crash" if r.crashed else "accepted", f"a stray {mark!r} gave exit code {r.rc}", **detail, **r.brief())
            return
        tabbed = fmt == "tabbed"
        got, bad = parse_out(r.out, tabbed)
        if bad or not got:
            rec.violation("output", f"unexpected line {(bad or [''])[0]!r}", **detail)
            return
        path, pos, msg = got[0]
        g = path_of(rec, pr, s, path, fmt, base, detail)
        if g is None:
            return
        if g is not f:
            rec.violation("file", f"an error in {f.name} was reported in {g.name}", **detail)
            return
        if not judge(rec, f, pos, where(f, found, tabbed), tabbed, detail, f"the stray {mark!r} ({msg})", len(mark)):
            return
        rec.event("error " + ("tabbed " if tabbed else "") + f.kind)
        if f is not pr.main:
            rec.event("error in an included file")
    rec.eval((code, fmt))
    rec.sample([mark, got[0]])


FAMILIES = [Family("lints", lints, 1700, 60000, need=["lint p8", "lint lua", "lint png", "lint tabbedp8", "lint tabbedlua", "lint p8 crlf", "in an included file", "in a later tab"]),
            Family("errors", errors, 1900, 60000, need=["error p8", "error lua", "error tabbed p8", "error in an included file"])]

if __name__ == "__main__":
    sys.exit(core.main(sys.modules[__name__]))
