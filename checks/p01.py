"""C01: safe minification never changes what a program does."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, luagen, luarun, mini
from vlib.core import Family

PROP = "C01"
LEVEL = "exploration"
RULE = ("a case counts as distinct when the (program, options) pair is new and the original program produced a "
        "non-empty trace in the VM")
ASSUMPTIONS = ["z8lua (lupaz8) implements PICO-8's Lua dialect", "stubbed API calls are deterministic"]


def compare(rec, src, base, code, args, r, extra=""):
    """one oracle decision. returns True if fine"""
    if r.crashed:
        rec.violation("tool-crash", f"unhandled exception under {' '.join(args)}", src=src, **r.brief())
        return False
    if r.rc not in (0, 2) or code is None:
        rec.violation("rejected", f"valid program refused (rc {r.rc}) under {' '.join(args)}", src=src, **r.brief())
        return False
    new = luarun.run(code)
    if new.status == "limit" and base.status != "limit":
        new = luarun.run(code, steps=luarun.STEPS * 20)
    rec.event("vm_pairs")
    rec.event("trace_events", len(base.trace))
    if base.status == "limit" or new.status == "limit":
        n = min(len(base.trace), len(new.trace))
        ok = base.trace[:n] == new.trace[:n] and base.status == new.status
        d = None if ok else f"prefix differs or only one terminates ({base.status}/{new.status})"
    else:
        d = base.diff(new)
    rec.eval((src, tuple(args)), nontrivial=bool(base.trace))
    if code == src:
        rec.event("output_identical")
    if d:
        rec.violation("behaviour", f"minified program behaves differently under {' '.join(args)}: {d}"[:300],
                      src=src, out=code, args=args, expected=base.trace[-8:], got=new.trace[-8:],
                      errs=[base.err, new.err])
        return False
    return True


def usable(rec, src):
    base = luarun.run(src)
    rec.event("program_" + base.status)
    if base.status == "syntax":
        rec.skip("VM rejects the generated program")
        return None
    return base


def generated(rng, rec):
    size = rng.choice([None, None, 4, 12, 40])
    kw = {} if size is None else dict(size=size)
    src = luagen.program(rng, mode=rng.choice(["safe", "safe", "safe", "full"]), **kw)
    base = usable(rec, src)
    if base is None:
        return
    with mini.Tool(src, rng.choice([43, 43, 43, 41, 36, 29])) as t:
        for _ in range(3):
            args = mini.rand_config(rng, safe=True)
            r, code = t.run(*args)
            for a in args:
                rec.event("opt " + a)
            if not compare(rec, src, base, code, args, r):
                return
    rec.sample(src[:300])


FAMILIES = [Family("generated", generated, 4000, 80000, need=["vm_pairs", "trace_events"])]

if __name__ == "__main__":
    sys.exit(core.main(sys.modules[__name__]))
