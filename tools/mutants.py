"""Development only: runs checks against small edits of a copy of /repo.

python3 tools/mutants.py [PROPERTY ...]      (never by the registered commands)
"""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = []


def m(prop, file, old, new, count=1):
    M.append((prop, "properimage/%s.py" % file, old, new, count))


exec(open(os.path.join(HERE, "tools", "mutants.txt")).read())

want = sys.argv[1:]
for prop, path, old, new, count in M:
    if want and prop not in want:
        continue
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        subprocess.run("cp -a /repo/properimage %s/" % d, shell=True, check=True)
        p = os.path.join(d, path)
        s = open(p).read()
        if old not in s:
            print(prop, "STALE", repr(old)[:80])
            continue
        open(p, "w").write(s.replace(old, new, count))
        r = subprocess.run([sys.executable, "check.py", prop], cwd=HERE, env=dict(os.environ, VMC_REPO=d),
                           capture_output=True, text=True)
        first = [x for x in r.stdout.splitlines() if x.startswith("  [")]
        print(prop, "caught" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "rc=%d" % r.returncode,
              repr(new.strip())[:90], "|", (first or [""])[0].strip()[:140], flush=True)
    finally:
        shutil.rmtree(d)
