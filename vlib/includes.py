"""Projects of several files including each other, with a reference expansion that keeps the origin of every character."""
from . import luagen, mini, plua, soup
from .tool import p8_to_uni, cli

TABBRK = "\n-->8\n"
# texts holding things that look like includes but aren't
TRICKY = [
    's1="a\\\n#include x.lua\n"', "s2=[[\n#include x.lua\n]]", "--[[\n#include x.lua\n]]", "--[=[\n#include x.lua\n]] '\n]=]",
    "s3=[==[\n#include x.lua\n]]\n#include y.lua\n]==]", "-- #include x.lua", "-- don't", "// don't", "//[[", "--[ [", "s4='\\'' --\"", "s5=\"[[\"",
    "s6='--'", "t={}\nn=\n#t", "n=\n  #{1,2}", "n=\n#(s)", "n= #s6 -- #include x.lua", "x=[[a]]..'[['", "t[#t+1]=1", "t[t[1]]=2", "s7='a\\\\'",
    "s8=\"\\z \n#include x.lua\"", "a=1--[[ ]]b=2", "if (a) b=[[\n#include x.lua]]", "x=1 ?2", "s9='//'", 's10="--[["', "n=5//[[\n",
    "n=1-#[[\n#include a.lua\n]]", "--[[]]", "--]]", "x=a[ [[\n#include x.lua\n]]]", "s11='#include x.lua'", "s12=\"x\\\\\\\"\"", "y=1 --[=[ ]]]=]", "n=#\n#include_x",
]
NAMES = ["a.lua", "b.lua", "lib/c.lua", "lib/d e.lua", "lib/sub/f-1.lua", "main2.p8", "lib/x.p8", "my cart.p8", "sub/y.p8", "data.p8.png", "lib/z.p8.png", "v1.2.lua", "noext", "caf\u00e9.lua", "A:b.lua",
         "#x.lua"]


class File:
    """name, kind, tabs: [[item]], item = ('text', str) | ('inc', line text, File, tab|None)"""

    def __init__(m, name, kind):
        m.name, m.kind, m.tabs, m.head, m.done = name, kind, [[]], [], False

    def code(m):
        """the text as it stands in the file"""
        return TABBRK.join("\n".join(it[1] for it in tab) for tab in m.tabs)

    def expand(m):
        """[(char, origin)], origin = (file, offset in its own code)"""
        out, off = [], 0
        for k, tab in enumerate(m.tabs):
            if k:
                out += [(c, (m, off + i)) for i, c in enumerate(TABBRK)]
                off += len(TABBRK)
            for j, it in enumerate(tab):
                if j:
                    out.append(("\n", (m, off)))
                    off += 1
                if it[0] == "text":
                    out += [(c, (m, off + i)) for i, c in enumerate(it[1])]
                else:
                    out += it[2].expand_tab(it[3])
                off += len(it[1])
        if m.kind == "lua" and m.tail == "\n\n":
            out.append(("\n", (m, off)))
        return out

    def expand_tab(m, tab):
        full = m.expand()
        if tab is None:
            return full
        text = "".join(c for c, _ in full)
        starts = [0]
        i = text.find(TABBRK)
        while i >= 0:
            starts.append(i + len(TABBRK))
            i = text.find(TABBRK, starts[-1])
        ends = [s - len(TABBRK) for s in starts[1:]] + [len(text)]
        return full[starts[tab]:ends[tab]]

    def has_breaks(m, own=False):
        return len(m.tabs) > 1 or any(it[0] == "inc" and it[2].has_breaks() and it[3] is None for t in m.tabs for it in t)

    def text(m):
        """the bytes of a text file"""
        code = p8_to_uni(m.code())
        if m.kind == "lua":
            t = code + (m.tail or "\n" * (code[-1:] in ("\n", "")))
        else:
            t = "".join(l + "\n" for l in m.head) + "__lua__\n" + code + "\n" + m.tail
        return t.replace("\n", "\r\n") if m.crlf else t

    def first_line(m):
        return 0 if m.kind != "p8" else len(m.head) + 1


def relname(frm, to, rng):
    """the path of a file as named in another one"""
    d = frm.split("/")[:-1]
    t = to.split("/")
    while d and len(t) > 1 and d[0] == t[0]:
        d, t = d[1:], t[1:]
    return "/".join([".."] * len(d) + t)


class Project:
    def __init__(m, rng, chunks, tricky=True, png=True, crlf=True, errors=None):
        """chunks: complete pieces of code (they're spread over the files, in order)"""
        m.rng = rng
        m.files = []
        m.names = rng.sample(NAMES, len(NAMES))
        if not png:
            m.names = [n for n in m.names if not n.endswith("png")]
        m.tricky = tricky
        m.crlf = crlf
        m.chunks = list(chunks)
        m.budget = rng.choice([1, 2, 4, 7])
        m.used = {}
        m.main = m.file("main.p8" if rng.random() < 0.85 else "main.lua", 0)
        while m.chunks:
            m.main.tabs[-1].append(("text", m.chunks.pop(0)))

    def filler(m):
        return [("text", m.rng.choice(TRICKY)) for _ in range(m.rng.choice([0, 0, 1, 1, 2, 3]))] if m.tricky else []

    def file(m, name, depth):
        rng = m.rng
        kind = "png" if name.endswith("png") else "p8" if name.endswith("p8") else "lua"
        f = File(name, kind)
        m.files.append(f)
        f.crlf = m.crlf and kind != "png" and rng.random() < 0.15
        f.tail = rng.choice(["\n", "\n", "", "\n\n"]) if kind == "lua" else rng.choice(["", "", "__gfx__\n" + "0123" * 32 + "\n", "__label__\n"])
        if kind == "p8":
            f.head = rng.choice([["pico-8 cartridge // http://www.pico-8.com", "version 43"]] * 3 + [[], ["pico-8 cartridge // http://www.pico-8.com", "version 41", "", ""],
                                ["pico-8 cartridge // x", "version 43", "__gfx__", "00"]])
        ntabs = rng.choice([1, 1, 2, 3, 4]) if kind != "lua" else 1
        f.tabs = []
        for k in range(ntabs):
            tab = m.filler()
            for _ in range(rng.choice([1, 1, 2, 3])):
                r = rng.random()
                if r < 0.45 and m.chunks:
                    tab.append(("text", m.chunks.pop(0)))
                elif r < 0.9 and m.budget > 0 and depth < 4 and kind != "png":
                    tab.append(m.include(f, depth))
                tab += m.filler()
            if not "".join(it[1] for it in tab):
                tab.append(("text", "z=1"))
            f.tabs.append(tab)
        return f

    def include(m, f, depth):
        rng = m.rng
        m.budget -= 1
        old = [g for g in m.used.values() if rng.random() < 0.3 and g.done]
        if old:
            g = rng.choice(old)
        else:
            name = m.names.pop()
            g = m.file(name, depth + 1)
            g.done = True
            m.used[name] = g
        tab = None
        nested = any(it[0] == "inc" and it[2].has_breaks() and it[3] is None for t in g.tabs for it in t)
        if g.kind != "lua" and not nested and rng.random() < 0.5:
            tab = rng.randrange(len(g.tabs))
        path = relname(f.name, g.name, rng)
        if rng.random() < 0.1:
            path = "./" + path
        if rng.random() < 0.1 and ":" not in path:
            path = path.replace("/", "\\")
        line = rng.choice(["", "", "", " ", "\t", "  \t"]) + "#include" + rng.choice([" ", " ", " ", "  ", "\t"]) + path + (f":{tab:{rng.choice('xX')}}" if tab is not None else "")
        m.used_tabs = True
        return ("inc", line, g, tab)

    def write(m, s):
        """write all files under the scratch folder"""
        import os
        for f in m.files:
            p = s.path("proj/" + f.name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if f.kind == "png":
                s.write("tmp.p8", mini.p8_text(f.code()))
                r = cli([s.path("tmp.p8"), p])
                if r.rc != 0:
                    return False
            else:
                with open(p, "wb") as h:
                    h.write(f.text().encode("utf8"))
        m.inp = s.path("proj/" + m.main.name)
        return True
