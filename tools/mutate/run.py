"""run.py OUT PER_FILE SEED WORKERS FILE=C01,C02 ...

Samples mutants of each file, drops those the stable tests notice, runs the
checks on the rest and writes one JSON line per mutant.  With DELAY=k in the
environment, mutants that behave until their k-th execution."""
import json
import os
import queue
import random
import re
import shutil
import subprocess
import sys
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import delayed
import gen

# k: mutants that go wrong from their k-th execution on
DELAY = int(os.environ.get("DELAY", 0))

PY = "/opt/venv/bin/python"
BASE = {"make_data_tables_test.py::TestMakeDataTables::" + n for n in (
    "test_edit_distances_dhgr", "test_edit_distances_hgr",
    "test_pixel_string")}


def tests(w, timeout):
    try:
        p = subprocess.run(
            [PY, "-W", "ignore", "-m", "pytest", "-q", "-x", "-p",
             "no:cacheprovider", "--rootdir=" + w, "transcoder"] + sum(
                 (["--deselect", "transcoder/" + b] for b in BASE), []),
            cwd=w, timeout=timeout, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, text=True,
            env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        return p.returncode == 0
    except subprocess.TimeoutExpired:
        return False


def one(w, m, checks, env):
    f = os.path.join(w, m["file"])
    src = open(os.path.join("/repo", m["file"]), "rb").read()
    new = src[:m["start"]] + m["text"].encode() + src[m["end"]:]
    if DELAY:
        at = delayed.prelude_at(os.path.join("/repo", m["file"]))
        new = new[:at] + delayed.PRELUDE.encode() + new[at:]
    try:
        compile(new, f, "exec")
    except SyntaxError:
        return "syntax"
    open(f, "wb").write(new)
    try:
        if m["file"].startswith("transcoder") and not tests(w, 120):
            return "tests"
        miss = []
        for c in checks:
            try:
                p = subprocess.run([os.environ.get("CHECK", "/verif/bin/check"), c, "quick"], env=env,
                                   timeout=900, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
                p = None
            if rc == 1 and re.search("^VIOLATION property=" + c, p.stdout,
                                     re.M):
                l = [x for x in p.stdout.split("\n") if x.startswith(
                    "failure")]
                return "caught %s after %s: %s" % (c, miss, l[:1])
            miss.append("%s:%s" % (c, rc) if rc else c)
            if rc:
                m["out"] = (p.stdout if p else "")[-1500:]
        return "SURVIVED %s" % miss
    finally:
        open(f, "wb").write(src)


def main():
    out, per, seed, workers = sys.argv[1], int(sys.argv[2]), \
        int(sys.argv[3]), int(sys.argv[4])
    jobs = queue.Queue()
    todo = []
    for a in sys.argv[5:]:
        f, cs = a.split("=")
        f, _, lines = f.partition(":")
        os.chdir("/repo")
        ms = delayed.mutants(f, DELAY) if DELAY else gen.mutants(f)
        if lines:
            lo, hi = map(int, lines.split("-"))
            ms = [m for m in ms if lo <= m["line"] <= hi]
        random.Random(seed).shuffle(ms)
        todo += [(m, cs.split(",")) for m in ms[:per]]
    random.Random(seed).shuffle(todo)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["start"], d["end"], d["text"]))
    for m, cs in todo:
        if (m["file"], m["start"], m["end"], m["text"]) not in done:
            jobs.put((m, cs))
    print(jobs.qsize(), "mutants", flush=True)
    lock = threading.Lock()

    def work(k):
        w = "/tmp/mutate/%s.%d" % (os.path.basename(out), k)
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs("/tmp/mutate", exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", w])
        env = dict(os.environ, VERIF_REPO=w, VERIF_SEED=str(seed),
                   VERIF_SHARDS=os.environ.get("VERIF_SHARDS", "4"))
        while True:
            try:
                m, cs = jobs.get_nowait()
            except queue.Empty:
                break
            r = one(w, m, cs, env)
            m["result"] = r
            with lock:
                open(out, "a").write(json.dumps(m) + "\n")
                if not r.startswith(("tests", "syntax")):
                    print("%s:%d %r -> %r: %s" % (
                        m["file"], m["line"], m["old"][:70], m["text"][:70],
                        r[:150]), flush=True)
        shutil.rmtree(w, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
