#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from the definitions in bugs.py.

usage: mkseed.py [ID...]      (the edits are made in a scratch copy of /repo's tracked files)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from bugs import BUGS  # noqa: E402

DEMO = """#!/bin/bash
# {title}
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=src PYTHONDONTWRITEBYTECODE=1
exec timeout 200 /opt/vp/venv/bin/python "$D/demo.py"
"""


def main():
    ids = sys.argv[1:] or list(BUGS)
    tmp = tempfile.mkdtemp(prefix="mkseed")
    try:
        subprocess.run(f"git -C /repo archive HEAD | tar -x -C {tmp} && cd {tmp} && git init -q && git add -A && "
                       "git -c user.name=x -c user.email=x commit -qm x", shell=True, check=True)
        for i in ids:
            b = BUGS[i]
            subprocess.run(["git", "-C", tmp, "checkout", "-q", "--", "."], check=True)
            for f, old, new in b["edits"]:
                p = os.path.join(tmp, f)
                s = open(p).read()
                n = s.count(old)
                if n != 1:
                    sys.exit(f"{i}: {f}: {n} occurrences of {old!r}")
                open(p, "w").write(s.replace(old, new))
            diff = subprocess.run(["git", "-C", tmp, "diff"], check=True, capture_output=True, text=True).stdout
            d = os.path.join(ROOT, "seeded", i)
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.py"), "w").write("from minisnmp import *\n" + b["demo"].lstrip("\n").rstrip() + "\ndone()\n")
            open(os.path.join(d, "demo.sh"), "w").write(DEMO.format(title=b["what"].split(". ")[0].replace("\n", " ")))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            shutil.copy(os.path.join(HERE, "minisnmp.py"), d)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            print(i, len(diff))
    finally:
        shutil.rmtree(tmp)


main()
