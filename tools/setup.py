"""setup_cmd: nothing is built; only confirms that the interpreter and the code under test are there"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, tool, luarun
os.makedirs(core.EVID, exist_ok=True)
r = luarun.run("printh(1)")
assert r.status == "ok" and r.trace, (r.status, r.err)
r = tool.cli(["--version"])
print("ready")
