"""Runs a list of command lines in one process: the tool's observable results go to stdout as json.
   stdin: json {tasks: [[dir, cwd, args, lang]], clock: seconds to add to the clock}"""
import hashlib, json, os, sys

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    job = json.load(sys.stdin)
    if job.get("clock"):
        import time
        real = time.time
        time.time = lambda: real() + job["clock"]
    from vlib.tool import cli
    res = []
    for dir, cwd, args, lang in job["tasks"]:
        os.chdir(cwd)
        r = cli(args, lang=lang)
        files = {}
        for base, ds, fs in os.walk(dir):
            for n in ds:
                files[os.path.relpath(os.path.join(base, n), dir) + "/"] = None
            for n in fs:
                p = os.path.join(base, n)
                with open(p, "rb") as f:
                    files[os.path.relpath(p, dir)] = hashlib.sha1(f.read()).hexdigest()
        res.append([r.rc, r.out, r.err, (r.exc or "").strip().split("\n")[-1], files])
    sys.stdout.write(json.dumps(res))
