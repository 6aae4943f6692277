"""Writes /verif/seeded from the registries (run from /verif/tools/seeds)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(os.path.dirname(HERE)), "seeded")


def rd(n):
    return open(os.path.join(HERE, n)).read()


T = rd("pre_t.py")                              # transcoder
S = rd("pre_s.py")                              # simulator
P = rd("pre_p.py")                              # player
HERE_P = "sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n"
ENC = T + HERE_P + "import numpy as np\nimport table\ntable.install()\n"
M = T + HERE_P + "import sound\nsound.install()\n"
F = T + HERE_P + "import sound\nsound.install()\nimport film\n" \
    "film.install()\nimport tempfile, shutil\nimport numpy as np\n"
FILES = {P: ["play.py", "a2.py"], ENC: ["table.py"], M: ["sound.py"],
         F: ["sound.py", "film.py"]}
BUGS = {}
# Not kept in /verif/seeded: a build with one of these makes the distance table
# anew, which takes half an hour, or they change a script of the build.  Named
# on the command line they are written all the same.
APART = {"dhgr-phase", "permutation-shortcut", "shifted-pairs-equal",
         "extra-dirs-flat", "loader-name-unchecked", "reboot-keeps-basic"}


def bug(name, prop, edits, needs, breaks, demo, files=()):
    assert name not in BUGS, name
    BUGS[name] = (prop, edits, needs, breaks, demo, files)


def write(name):
    prop, edits, needs, breaks, demo, files = BUGS[name]
    d = os.path.join(OUT, "%s-%s" % (prop.lower(), name))
    tmp = tempfile.mkdtemp()
    try:
        diff = ""
        for f in dict.fromkeys(e[0] for e in edits):
            s = open(os.path.join("/repo", f)).read()
            for g, a, b in edits:
                if g == f:
                    assert s.count(a) == 1, (name, f, s.count(a), a)
                    s = s.replace(a, b)
            for k in "ab":
                os.makedirs(os.path.dirname(os.path.join(tmp, k, f)),
                            exist_ok=True)
            shutil.copy(os.path.join("/repo", f), os.path.join(tmp, "a", f))
            open(os.path.join(tmp, "b", f), "w").write(s)
            p = subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=tmp,
                               stdout=subprocess.PIPE, text=True)
            lines = p.stdout.split("\n")
            lines[0] = "--- a/" + f
            lines[1] = "+++ b/" + f
            diff += "diff --git a/%s b/%s\n" % (f, f) + "\n".join(lines)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
    finally:
        shutil.rmtree(tmp)
    open(d + "/demo.py", "w").write(demo)
    open(d + "/demo.sh", "w").write(
        '#!/bin/bash\n# Exits 0 if the code of the current directory is '
        'right.\nd=$(cd "$(dirname "$0")" && pwd)\n'
        'PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore '
        '"$d/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    need = list(files)
    for k, v in FILES.items():
        if demo.startswith(k):
            need += v
    for n in set(need):
        shutil.copy(os.path.join(HERE, n), d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(d + "/meta.json", "w"), indent=1)
    return d


def main():
    import importlib
    for n in sorted(os.listdir(HERE)):
        if n.startswith("registry"):
            importlib.import_module(n[:-3])
    m = sys.modules["mk"]
    for n in m.BUGS:
        if n in sys.argv[1:] or len(sys.argv) < 2 and n not in APART:
            print(os.path.basename(m.write(n)))


if __name__ == "__main__":
    main()
