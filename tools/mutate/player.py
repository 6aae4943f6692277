"""player.py OUT N SEED WORKERS [LO-HI]

Mutates single instructions of player/main.s, keeping the code's size and
addresses, and runs the player's checks (C02-C09) on each mutant.  In a macro,
half of the mutants concern one page only."""
import json
import os
import queue
import random
import re
import shutil
import subprocess
import sys
import threading

SRC = "/repo/player/main.s"
INS = re.compile(r"^\s+(?:(@\w+):\s+)?([A-Z]{3})(?:\s+([^;]*?))?\s*(;.*)?$")
LABEL = re.compile(r"^(@?\w+):\s+([A-Z]{3}.*)$")
BR = {"BEQ": ["BNE"], "BNE": ["BEQ"], "BCS": ["BCC"], "BPL": ["BMI"]}
ONE = ["NOP", "CLC", "SEC", "TAX", "TAY", "TXA", "TYA", "INX", "DEX", "INY"]
ORDER = ["C03", "C04", "C02", "C08", "C05", "C06", "C07", "C09"]


def size(op, arg):
    if not arg or arg == "A":
        return 1
    if op in BR or arg.startswith("#"):
        return 2
    if op in ("JMP", "JSR"):
        return 3
    a = arg.split(",")[0].strip()
    return 2 if a in ("zpdummy", "ptr", "HGRZP") else 3


def nops(n):
    return ["NOP"] * n


def mutants():
    lines = open(SRC).read().split("\n")
    out = []
    macro = None
    ins = {}
    for i, l in enumerate(lines):
        m = re.match(r"\.macro (op_tick_\d+) page", l)
        if m:
            macro = m[1]
        if l.strip() == ".endmacro":
            macro = None
        c = re.match(r"^(\w+)\s*=\s*\$?([0-9A-F]+)", l)
        if c and c[1] not in ("HGR", "PRBYTE", "PRNTAX"):
            v = int(c[2], 16)
            for d in (1, -1, 0x10):
                w = "%s = $%0*X" % (c[1], len(c[2]), max(0, v + d))
                out.append((i, None, [w]))
        m = INS.match(l)
        if not m:
            continue
        lab, op, arg = m[1], m[2], (m[3] or "").strip()
        if op == "ORG":
            continue
        n = size(op, arg)
        ins[i] = (lab, op, arg, n, macro)
        pre = (lab + ": ") if lab else ""

        def add(*t):
            out.append((i, macro, [pre + t[0]] + ["    " + x for x in t[1:]]))
        if n > 1:
            add(*nops(n))
        else:
            for o in ONE:
                if o != op:
                    add(o)
        for b in BR.get(op, []):
            add(b + " " + arg)
        if arg.startswith("#"):
            for d in (1, -1, 8, 16):
                add("%s #<((%s)+(%d))" % (op, "<" + arg[2:] if arg[1] == "<"
                                          else ">" + arg[2:] if arg[1] == ">"
                                          else arg[1:], d))
        elif n == 3 and op in ("LDA", "LDX", "LDY", "STA", "STX", "STY",
                               "BIT"):
            a = arg.split(",")
            for o in ("LDA", "LDX", "LDY", "STA", "STX", "STY", "BIT", "INC"):
                if o == op:
                    continue
                if len(a) > 1:
                    if o not in ("LDA", "STA"):
                        continue
                add(o + " " + arg)
            if len(a) > 1:
                add("%s %s" % (op, a[0]))
                add("%s %s,%s" % (op, a[0],
                                  "X" if a[1].strip() in "Yy" else "Y"))
            else:
                if op in ("LDA", "STA"):
                    add("%s %s,X" % (op, a[0]))
                    add("%s %s,Y" % (op, a[0]))
            add("%s %s+1%s" % (op, a[0], "," + a[1] if len(a) > 1 else ""))
            add("%s %s-1%s" % (op, a[0], "," + a[1] if len(a) > 1 else ""))
            for w in ("WDATA", "WADRH", "WADRL", "TICK", "dummy"):
                if a[0] in ("WDATA", "WADRH", "WADRL", "TICK", "dummy",
                            "KBD", "KBDSTRB") and w != a[0]:
                    add("%s %s" % (op, w))
        elif op == "JMP" and "tail_" in arg:
            for t in (59, 55, 51, 46, 42, 37, 33, 28, 24, 19, 15, 60, 56, 52,
                      47, 43, 38, 34, 29, 25, 20, 16, 12, 8):
                add("JMP " + re.sub(r"tail_\d+", "tail_%d" % t, arg))
        elif op in ("JMP", "JSR"):
            for t in ("checkrecv", "recv", "exit", "op_ack", "op_terminate",
                      "COUT", "PRODOS", "wait_read_header", "CHECKTEST"):
                add("%s %s" % (op, t))
        elif op in ("DEC", "INC"):
            add(("INC " if op == "DEC" else "DEC ") + arg)
    # swapped neighbours
    for i in sorted(ins):
        j = i + 1
        if j in ins and not ins[j][0]:
            a, b = ins[i], ins[j]
            if (a[1], a[2]) != (b[1], b[2]) and a[1] not in BR \
                    and b[1] not in BR and "JMP" not in (a[1], b[1]):
                pre = (a[0] + ": ") if a[0] else ""
                out.append((i, a[4], [pre + b[1] + " " + b[2],
                                      "    " + a[1] + " " + a[2]], j))
    return lines, [m if len(m) == 4 else m + (m[0],) for m in out]


def apply(lines, m, page):
    i, macro, new, j = m
    old = lines[i:j + 1]
    if page is None:
        body = new
    else:
        body = [".if page = %d" % page] + new + [".else"] + old + [".endif"]
    return "\n".join(lines[:i] + body + lines[j + 1:])


def code(d):
    p = subprocess.run(["make", "iivision", "CC65_BIN=/usr/bin",
                        "CC65_HOME=/usr/share/cc65"], cwd=d,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        return None
    try:
        dbg = open(d + "/iivision.dbg").read()
        return (open(d + "/iivision", "rb").read(), sorted(re.findall(
            r'name="([^"]*)".*?val=(0x[0-9A-F]+)', dbg)))
    except OSError:
        return None


def main():
    out, n, seed, workers = sys.argv[1], int(sys.argv[2]), \
        int(sys.argv[3]), int(sys.argv[4])
    lines, ms = mutants()
    if len(sys.argv) > 5:
        lo, hi = map(int, sys.argv[5].split("-"))
        ms = [m for m in ms if lo <= m[0] + 1 <= hi]
    rnd = random.Random(seed)
    rnd.shuffle(ms)
    jobs = queue.Queue()
    for m in ms[:n]:
        page = None
        if m[1] and rnd.random() < 0.6:
            page = rnd.randrange(32, 64)
        jobs.put((m, page))
    print(jobs.qsize(), "of", len(ms), "mutants", flush=True)
    lock = threading.Lock()

    def work(k):
        w = "/tmp/mutate/%s.%d" % (os.path.basename(out), k)
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs("/tmp/mutate", exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", w])
        s = w + ".asm"

        def build():
            shutil.rmtree(s, ignore_errors=True)
            shutil.copytree(w + "/player", s)
            return code(s)
        base = build()
        assert base
        env = dict(os.environ, VERIF_REPO=w, VERIF_SEED=str(seed),
                   VERIF_SHARDS=os.environ.get("VERIF_SHARDS", "2"))
        while True:
            try:
                m, page = jobs.get_nowait()
            except queue.Empty:
                break
            open(w + "/player/main.s", "w").write(apply(lines, m, page))
            b = build()
            syms = lambda b: [x for x in b[1]]
            if b is None:
                r = "asm"
            elif b[0] == base[0]:
                r = "same"
            elif len(b[0]) != len(base[0]):
                r = "size"
            else:
                miss = []
                r = None
                for c in ORDER:
                    try:
                        p = subprocess.run(
                            [os.environ.get("CHECK", "/verif/bin/check"), c,
                             "quick"], env=env, timeout=900, text=True,
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                        rc = p.returncode
                    except subprocess.TimeoutExpired:
                        rc, p = "timeout", None
                    if rc == 1:
                        l = [x for x in p.stdout.split("\n") if x.startswith(
                            "failure")]
                        r = "caught %s after %s: %s" % (c, miss, l[:1])
                        break
                    miss.append("%s:%s" % (c, rc) if rc else c)
                if r is None:
                    r = "SURVIVED %s" % miss
            with lock:
                open(out, "a").write(json.dumps(
                    {"line": m[0] + 1, "old": lines[m[0]:m[3] + 1],
                     "new": m[2], "page": page, "result": r}) + "\n")
                if r not in ("asm", "same", "size"):
                    print("%d %r -> %r page %s: %s" % (
                        m[0] + 1, [x.strip() for x in lines[m[0]:m[3] + 1]],
                        m[2], page, r[:150]), flush=True)
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(s, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
