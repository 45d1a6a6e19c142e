"""C02: full minification never changes what a program does, when the program keeps the documented assumptions."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, luagen, mini
from vlib.core import Family
from p01 import compare, usable

PROP = "C02"
LEVEL = "exploration"
RULE = ("a case counts as distinct when the (program, options) pair is new and the original program produced a "
        "non-empty trace in the VM")
ASSUMPTIONS = ["z8lua (lupaz8) implements PICO-8's Lua dialect", "stubbed API calls are deterministic",
               "generated programs keep to the documented assumptions: table members are not reached through strings "
               "(unless hinted), member order is not observed, and under --focus-tokens no metamethod/side effect "
               "observes the order in which independent assignments run"]


def generated(rng, rec):
    size = rng.choice([None, None, 4, 12, 40])
    kw = {} if size is None else dict(size=size)
    args_list = [mini.rand_config(rng, safe=False) for _ in range(3)]
    src = luagen.program(rng, mode="full", meta=not any("--focus-tokens" in a for a in args_list), **kw)
    base = usable(rec, src)
    if base is None:
        return
    with mini.Tool(src, rng.choice([43, 43, 43, 41, 36, 29])) as t:
        for args in args_list:
            r, code = t.run(*args)
            for a in args:
                rec.event("opt " + a)
            if not compare(rec, src, base, code, args, r):
                return
    rec.sample(src[:300])


FAMILIES = [Family("generated", generated, 4000, 80000, need=["vm_pairs", "trace_events"])]

if __name__ == "__main__":
    sys.exit(core.main(sys.modules[__name__]))
