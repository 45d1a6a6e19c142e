"""developer aid: text-level ddmin of a dumped C01/C02-style violation (source = lexical pieces, incl. comments)"""
import json, re, sys
sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))))
from vlib import mini, luarun
d = json.load(open(sys.argv[1]))
src, args = d["detail"]["src"], d["detail"]["args"]
ver = d["detail"].get("version")
kw = {} if ver is None else dict(version=ver)
PIECE = re.compile(r'--\[(=*)\[.*?\]\1\]|--[^\n]*|//[^\n]*|\[(=*)\[.*?\]\2\]|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|[\w\x80-\xff]+|[ \t]+|\n|.', re.S)

def bad(s):
    a = luarun.run(s)
    if a.status != "ok":
        return None
    r, code = mini.transform(s, args, **kw)
    if r.rc or code is None:
        return None
    b = luarun.run(code)
    if b.status == "limit": return None
    return (a.diff(b), code) if not a.same(b) else None

from vlib import plua
STAT = {"while", "do", "repeat", "funcstat", "localfunc", "local", "return", "break", "goto", "label", "assign", "opassign",
        "callstat", "print", "if", "fornum", "forin", "for"}
prog = True
while prog:
    prog = False
    try: P = plua.parse(src)
    except Exception: break
    nodes = sorted((n for n in plua.walk(P.root) if hasattr(n, "e") and n.e > n.a), key=lambda n: -(n.e - n.a))
    gone = []
    for n in nodes:
        a, b = P.toks[n.a].a, P.toks[n.e - 1].b
        cands = [src[:a] + src[b:]] if n.k in STAT else [src[:a] + "nil" + src[b:], src[:a] + "x" + src[b:]] if n.e - n.a > 1 else []
        for key in ("body", "els", "then"):
            bd = getattr(n, key, None)
            if n.k in STAT and isinstance(bd, (list, tuple)) and bd and hasattr(bd[0], "a"):
                cands.append(src[:a] + src[P.toks[bd[0].a].a:P.toks[bd[-1].e - 1].b] + src[b:])
        for c in cands:
            r = bad(c)
            if r:
                src, prog = c, True
                break
        if prog: break
    print(len(src), file=sys.stderr)

ps = [m.group() for m in PIECE.finditer(src)]
cur = bad("".join(ps))
if not cur: print("not reproduced"); sys.exit()
n = max(1, len(ps) // 4)
while n >= 1:
    i = 0; prog = False
    while i < len(ps):
        c = ps[:i] + ps[i+n:]
        r = bad("".join(c))
        if r: ps, cur, prog = c, r, True
        else: i += n
    if n == 1 and not prog: break
    n = n if (prog and n == 1) else max(1, n // 2)
print("#####", args); print("".join(ps)); print("=>"); print(cur[1]); print(cur[0])
