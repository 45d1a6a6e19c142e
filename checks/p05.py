"""C05: renaming preserves every name binding."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, luagen, luarun, mini, plua, soup, binding
from vlib.core import Family
from vlib.tool import cli, Scratch

PROP = "C05"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: an independent name resolver watches the program before and after the real renaming, token by token"
RULE = "a case counts as distinct when the (program, options) pair is new and at least one name was renamed"
ASSUMPTIONS = ["the independent resolver follows Lua's scoping rules (cross-checked against z8lua's syntax acceptance)"]

BUILTINS = set(soup.BUILTINS_G) | set(luarun.STUBS) | set(luarun.LOCALS) | {chr(c) for c in range(0x80, 0x9a)}
META = ("__index __newindex __len __eq __lt __le __add __sub __mul __div __idiv __mod __pow __concat __unm __call __tostring __metatable __mode __gc __pairs n").split()
TRON_BUILTINS = set(soup.BUILTINS_G) - set("band bnot bor bxor run sget shl shr sset".split())
TRON_MEMBERS = META + "x y z update_all draw_all width height label".split()
ONLY_RENAME = ["--no-minify-tokens", "--no-minify-consts", "--no-minify-reorder"]


def judge(rec, src, code, args, r, as_globals, safe, builtins=BUILTINS, callbacks=soup.CALLBACKS, meta=META, lua54=False):
    if r.crashed or r.rc not in (0, 2) or code is None:
        rec.violation("tool-crash" if r.crashed else "rejected", f"valid program refused under {' '.join(args)}", src=src, **r.brief())
        return False
    n = {}

    def stats(k):
        n[k] = n.get(k, 0) + 1
    try:
        res = binding.check(src, code, builtins, callbacks, meta, as_globals, stats=stats, lua54=lua54)
    except binding.Bad as e:
        rec.eval((src, tuple(args)))
        rec.violation("binding", f"{e} under {' '.join(args)}"[:400], src=src, out=code, args=args)
        return False
    a, b = res[0], res[1]
    ren = 0
    for i, t in enumerate(a.toks):
        if t.t == "name" and t.s != b.toks[i].s:
            ren += 1
            rec.event("renamed_" + a.refs[i][0])
    if safe:
        # under the safe mode members are never renamed, and globals only in a program without _ENV
        has_env = any(t.t == "name" and t.s == "_ENV" for t in a.toks)
        for i, t in enumerate(a.toks):
            if t.t == "name" and t.s != b.toks[i].s and (a.refs[i][0] == "member" or has_env and a.refs[i][0] == "global"):
                rec.violation("unsafe-rename", f"{a.refs[i][0]} {t.s!r} renamed under {' '.join(args)}", src=src, out=code, args=args)
                return False
    for k, v in n.items():
        rec.event("names_" + k, v)
    rec.eval((src, tuple(args)), nontrivial=ren > 0)
    return True


def configs(rng, n):
    out = []
    for _ in range(n):
        safe = rng.random() < 0.3
        args = [rng.choice(["--minify-safe-only"] if safe else ["--minify", "--minify", "--minify"])]
        args += rng.choice(mini.FOCI) + ONLY_RENAME
        as_globals = False
        if not safe and rng.random() < 0.25:
            k = rng.random()
            args += ["--rename-members-as-globals"] if k < 0.5 else ["--preserve", "*=*.*"]
            as_globals = True
        if not safe and rng.random() < 0.15:
            args += ["--rename-safe-only"]
            safe, as_globals = True, False
        for f in ["--no-minify-spaces", "--no-minify-lines"]:
            if rng.random() < 0.1:
                args.append(f)
        out.append((args, as_globals, safe))
    return out


def programs(rng, rec):
    k = rng.random()
    if k < 0.8:
        src = soup.soup(rng, env=rng.random() < 0.35, many=rng.random() < 0.3)
    else:
        src = luagen.program(rng, mode="safe", size=rng.choice([20, 40, 80]))
    try:
        p = plua.parse(src)
    except plua.LuaErr as e:
        rec.skip(f"generated program not valid: {str(e)[:30]}")
        return
    if rng.random() < 0.1:
        # the resolver's notion of a valid program is checked against the VM's
        st = luarun.run("do return end " + src).status
        rec.event("vm_accepts" if st != "syntax" else "vm_refuses")
        if st == "syntax":
            return
    env_member_mix = any(t.t == "name" and t.s == "_ENV" for t in p.toks)
    with mini.Tool(src, 43) as t:
        for args, as_globals, safe in configs(rng, 3):
            r, code = t.run(*args)
            if not judge(rec, src, code, args, r, as_globals, safe):
                return
    rec.sample(src[:300])


def picotron(rng, rec):
    src = soup.soup(rng, env=rng.random() < 0.3, many=rng.random() < 0.3, p8=False)
    src = src.replace("!=", "~=")
    try:
        plua.parse(src)
    except plua.LuaErr as e:
        rec.skip(f"generated program not valid: {str(e)[:30]}")
        return
    # (Lua 5.4 has no per-declaration restrictions this generator would break)
    with Scratch() as s:
        inp = s.write("a.lua", src)
        for n in range(2):
            safe = rng.random() < 0.3
            args = ["--minify-safe-only" if safe else "--minify"] + ONLY_RENAME
            as_globals = not safe and rng.random() < 0.3
            if as_globals:
                args.append("--rename-members-as-globals")
            r = cli([inp, s.path(f"o{n}.lua")] + args, lang="picotron")
            code = s.read(f"o{n}.lua").decode("latin-1") if s.exists(f"o{n}.lua") else None
            # (globals/members reachable through 'load' and 'include' are a documented exception: not generated)
            if not judge(rec, src, code, args, r, as_globals, safe, TRON_BUILTINS, ["_init", "_update", "_draw"], TRON_MEMBERS, lua54=True):
                return


FAMILIES = [Family("programs", programs, 1800, 60000, need=["renamed_local", "renamed_global", "renamed_member", "renamed_label"]),
            Family("picotron", picotron, 500, 20000, need=["renamed_local", "renamed_global", "renamed_member"])]

if __name__ == "__main__":
    sys.exit(core.main(sys.modules[__name__]))
