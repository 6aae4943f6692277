"""Builds the player of the current directory's tree and runs streams on it."""
import os
import re
import shutil
import subprocess
import sys
import tempfile

import a2


def build():
    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, "player")
        shutil.copytree("player", p, ignore=shutil.ignore_patterns(
            "*.o", "*.lst", "*.dsk", "*.map", "iivision"))
        r = subprocess.run(["make", "iivision", "CC65_BIN=/usr/bin",
                            "CC65_HOME=/usr/share/cc65"], cwd=p,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        f = os.path.join(p, "iivision")
        if not os.path.exists(f):
            print(r.stdout.decode("latin1")[-2000:])
            sys.exit(3)
        image = open(f, "rb").read()[0x3a:]
        sym = {}
        for line in open(os.path.join(p, "iivision.dbg")):
            m = re.match(r'sym\t.*?name="(\w+)".*?,val=0x([0-9A-F]+)', line)
            if m:
                sym.setdefault(m.group(1), int(m.group(2), 16))
        return image, sym
    finally:
        shutil.rmtree(d)


def stream(sym, ops, mode=0, banks=(0,), end=True):
    """ops: (width, page, content, offsets)."""
    s = bytearray([255] * 6 + [mode])
    k = 0

    def addr(name):
        return [sym[name] >> 8, sym[name] & 255]

    for w, page, content, offs in ops:
        s += bytes(addr("op_tick_%d_page_%d" % (w, page)) + [content] +
                   list(offs))
        if len(s) % 2048 == 2044:
            s += bytes(addr("op_ack") + [0x54 + banks[k % len(banks)], 255])
            k += 1
    if end:
        s += bytes(addr("op_terminate"))
        s += bytes(2048 - len(s) % 2048)
    return bytes(s)


def run(image, sym, s, cycles=3000000, **kw):
    kw.setdefault("arrivals", [(0, len(s))])
    m = a2.Apple(image, s, **kw)
    m.why = m.run(cycles)
    e = m.events.tolist()
    m.log_ = [tuple(e[i:i + 4]) for i in range(0, len(e), 4)]
    return m


def of(m, *kinds):
    return [e for e in m.log_ if e[1] in kinds]
