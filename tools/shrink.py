"""developer aid: minimise the failing program of a dumped violation, by AST pieces"""
import sys, os, json, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import plua, luarun, mini

STAT = {"while", "do", "repeat", "funcstat", "localfunc", "local", "return", "break", "goto", "label", "assign", "opassign",
        "callstat", "print", "if", "fornum", "forin", "for"}

def norm(src):
    toks = plua.lex(src)
    out = []
    for t in toks:
        if t.t == "eof": break
        out.append(("\n" if t.nl else " ") + src[t.a:t.b])
    return out

def text(p): return "".join(p).lstrip()

def body_span(b):
    if isinstance(b, (list, tuple)): 
        if not b: return None
        return b[0].a, b[-1].e
    return getattr(b, "a", None), getattr(b, "e", None)

def cands(parts):
    src = text(parts)
    try: P = plua.parse(src)
    except Exception: return
    nodes = [n for n in plua.walk(P.root) if hasattr(n, "e")]
    nodes.sort(key=lambda n: -(n.e - n.a))
    stats = [n for n in nodes if n.k in STAT]
    for n in stats:
        yield parts[:n.a] + parts[n.e:]
    for n in stats:
        for k in ("body", "els"):
            b = getattr(n, k, None)
            if b:
                sp = body_span(b)
                if sp and sp[0] is not None: yield parts[:n.a] + parts[sp[0]:sp[1]] + parts[n.e:]
        for c, b in getattr(n, "clauses", []):
            sp = body_span(b)
            if sp and sp[0] is not None: yield parts[:n.a] + parts[sp[0]:sp[1]] + parts[n.e:]
    for n in nodes:
        if n.k not in STAT and n.e - n.a > 1:
            yield parts[:n.a] + [" 1"] + parts[n.e:]
            yield parts[:n.a] + [" nil"] + parts[n.e:]
            yield parts[:n.a] + [" a"] + parts[n.e:]
            for c in plua.children(n):
                if hasattr(c, "e"): yield parts[:n.a] + parts[c.a:c.e] + parts[n.e:]
    for i in range(len(parts)):
        if parts[i][0] == "\n":
            yield parts[:i] + [" " + parts[i][1:]] + parts[i+1:]
    for i in range(len(parts)):
        yield parts[:i] + parts[i+1:]
    for w in (2, 3, 4):
        for i in range(len(parts)):
            yield parts[:i] + parts[i+w:]

def sig(src, args, crash=False, version=43):
    base = luarun.run(src)
    if base.status not in ("ok", "error"): return None
    r, code = mini.transform(src, args, version)
    if r.crashed: return ("crash", r.exc.strip().split("\n")[-1][:40])
    if r.rc not in (0, 2) or code is None: return None
    n = luarun.run(code)
    if base.same(n): return None
    def e(x): return re.sub(r":\d+:|'[^']*'|\"[^\"]*\"|at line \d+", "", x or "")
    return (base.status, n.status, e(n.err) if n.status == "syntax" else e(base.err) + "/" + e(n.err))

def shrink(src, args, crash=False, log=False):
    parts = norm(src)
    s0 = sig(src, args); s = sig(text(parts), args)
    if s is None or s0 != s: return src, s0
    again = True
    while again:
        again = False
        for c in cands(parts):
            if len(c) >= len(parts) and c == parts: continue
            t = text(c)
            if sig(t, args) == s:
                parts = c; again = True
                if log: print(len(parts), file=sys.stderr)
                break
    return text(parts), s

if __name__ == "__main__":
    v = json.load(open(sys.argv[1]))
    d = v["detail"]
    args = d.get("args") or v["what"].split(" under ")[1].split(":")[0].split()
    src, s = shrink(d["src"], args)
    for a in list(args):
        rest = [x for x in args if x != a]
        if sig(src, rest) == s: args = rest
    print("#####", args, s); print(src); print("=>"); print(mini.transform(src, args)[1])
    b = luarun.run(src); n = mini.transform(src, args)[1]
    if n is not None: print(b.diff(luarun.run(n)))
