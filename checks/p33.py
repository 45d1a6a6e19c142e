"""C33: #include inserts exactly the included code, where it is active and nowhere else."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, includes, luagen, mini, plua, soup
from vlib.core import Family
from vlib.tool import cli, Scratch, p8_to_uni, uni_to_p8

PROP = "C33"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: what the real tool reads from projects of many files is compared with a reference expansion (pasting by hand)"
RULE = "a case counts as distinct when the expanded program and the set of files is new"
ASSUMPTIONS = ["include lines don't end in spaces", "no tab breaks at the very start or end of a file, or next to each other",
               "tabs are picked from carts whose own includes hold no tab breaks"]


def chunk(rng):
    k = rng.random()
    if k < 0.3:
        return rng.choice(includes.TRICKY)
    if k < 0.6:
        return f"v{rng.randrange(99)}={rng.choice(['1', '#t', 'nil', chr(0x85) + 'x'])}"
    if k < 0.75:
        return luagen.program(rng, mode="safe", size=8).replace("\r", "").rstrip("\n")
    if k < 0.9:
        return soup.soup(rng).replace("\r", "").rstrip("\n")
    return rng.choice(["", "function f()", "end", "if a then", "else", "x=", "", "{", "}", "goto l"])


def paste(rng, rec):
    pr = includes.Project(rng, [chunk(rng) for _ in range(rng.choice([1, 3, 6, 12]))])
    want = "".join(c for c, _ in pr.main.expand())
    if any(x in want for x in ("\r", "\0")) or any(re.search(r"^__\S*__\s*$", f.code(), re.M) for f in pr.files):
        rec.skip("not for p8 files")
        return
    with Scratch() as s:
        if not pr.write(s):
            rec.skip("too big for png")
            return
        nm = pr.main.name
        fmt = rng.choice(["p8", "p8", "lua"])
        detail = dict(files={f.name: f.text() if f.kind != "png" else "png: " + f.code() for f in pr.files})
        cwd = os.getcwd()
        mode = rng.random()
        try:
            if mode < 0.4:
                os.chdir(s.path("proj"))
                r = cli([nm, s.path("out." + fmt)])
            elif mode < 0.5:
                os.chdir(s.path("proj"))
                r = cli(["../proj/" + nm, s.path("out." + fmt)])
            else:
                r = cli([pr.inp, s.path("out." + fmt)])
        finally:
            os.chdir(cwd)
        if r.rc != 0 or r.crashed or not s.exists("out." + fmt):
            rec.violation("tool-crash" if r.crashed else "rejected", "the project couldn't be read", **detail, **r.brief())
            return
        raw = s.read("out." + fmt).decode("utf8")
        got = mini.p8_code(raw) if fmt == "p8" else uni_to_p8(raw[:-1] if raw.endswith("\n") else raw)
        exp = want
        # (final line breaks are only told apart up to what the formats keep)
        if (got or "").rstrip("\n") != exp.rstrip("\n"):
            i = next((i for i, (x, y) in enumerate(zip(got, exp)) if x != y), min(len(got), len(exp)))
            rec.violation("expansion", f"the included code differs from pasting by hand at {i}: {got[max(0, i - 15):i + 40]!r} instead of {exp[max(0, i - 15):i + 40]!r}", **detail)
            return
        # a bit deeper: same results of processing as the pasted program
        if rng.random() < 0.15:
            try:
                plua.parse(want)
            except plua.LuaErr:
                pass
            else:
                cli([pr.inp, s.path("ver.p8")])
                ver = re.search(r"^version (\d+)$", s.read("ver.p8").decode("utf8"), re.M)[1]
                s.write("pasted.p8", mini.p8_text(want, int(ver)))
                opts = rng.choice([["--minify"], ["--minify-safe-only"], ["--unminify"], ["--minify", "--no-minify-rename"]]) + rng.choice([[], ["--count"]])
                a = cli([pr.inp, s.path("m1.p8")] + opts)
                b = cli([s.path("pasted.p8"), s.path("m2.p8")] + opts)
                if a.rc != b.rc or a.out != b.out or mini.p8_code(s.read("m1.p8").decode("utf8")) != mini.p8_code(s.read("m2.p8").decode("utf8")):
                    rec.violation("processing", f"{opts} gives other results than for the pasted program", **detail, a=a.brief(), b=b.brief())
                    return
                rec.event("processed alike")
    for f in pr.files:
        for t in f.tabs:
            for it in t:
                if it[0] == "inc":
                    rec.event("included " + it[2].kind + (" tab" if it[3] is not None else ""))
                    if f is not pr.main:
                        rec.event("nested include")
                elif "#include" in it[1]:
                    rec.event("inactive include")
        if f.crlf:
            rec.event("crlf file")
    rec.eval((want, len(pr.files)))
    rec.sample(sorted(f.name for f in pr.files))


def missing(rng, rec):
    """missing files and tabs"""
    with Scratch() as s:
        lines = [rng.choice(includes.TRICKY) for _ in range(rng.choice([0, 1, 3]))]
        k = rng.choice(["file", "file", "tab", "folder", "nested"])
        os.makedirs(s.path("d"))
        s.write("d/ok.p8", mini.p8_text("a=1\n-->8\nb=2"))
        s.write("d/n.lua", "x=1\n#include nope2.lua\n")
        inc = {"file": rng.choice(["nope.lua", "d/nope.p8", "nope.p8:1", "../nope", "d/ok.p8.png", "ok.p8", "D/ok.p8"]), "tab": "d/ok.p8:" + rng.choice("2aF"), "folder": "none/ok.p8", "nested": "d/n.lua"}[k]
        lines.insert(rng.randrange(len(lines) + 1), "#include " + inc)
        src = "\n".join(lines)
        inp = s.write("main.p8", mini.p8_text(src))
        r = cli([inp, s.path("out.p8")] + rng.choice([[], ["--minify"], ["--count"], ["--lint"]]))
        detail = dict(src=src, **r.brief())
        if r.crashed:
            rec.violation("missing-crash", f"including a missing {k} crashed", **detail)
        elif r.rc != (3 if k == "tab" else 4) or s.exists("out.p8"):
            rec.violation("missing-accepted", f"including a missing {k}: exit code {r.rc}, output {s.exists('out.p8')}", **detail)
        else:
            name = "nope2.lua" if k == "nested" else inc.split(":")[0]
            if name.split("/")[-1] not in r.err or (k == "tab" and inc[-1].lower() not in r.err.lower() and str(int(inc[-1], 16)) not in r.err):
                rec.violation("missing-name", f"the missing {k} isn't named", **detail)
            rec.event("missing " + k)
    rec.eval((src, k))


FAMILIES = [Family("paste", paste, 3000, 100000, need=["included lua", "included p8", "included p8 tab", "included png", "included png tab", "nested include", "inactive include", "crlf file", "processed alike"]),
            Family("missing", missing, 300, 4000, need=["missing file", "missing tab", "missing nested", "missing folder"])]

if __name__ == "__main__":
    sys.exit(core.main(sys.modules[__name__]))
