"""Readers of ProDOS and DOS 3.3 disk images (140 KB, in DOS sector order)."""
from . import core

# the two sectors of each block of a track
PAIRS = [(0, 14), (13, 12), (11, 10), (9, 8), (7, 6), (5, 4), (3, 2), (1, 15)]


def word(b, i):
    return b[i] | b[i + 1] << 8


def bad(cond, msg, **kw):
    core.check(cond, msg, "volume", **kw)


class Prodos:
    """files: [(path, type, aux, data)] in the order of the directories."""

    def __init__(self, img):
        bad(len(img) == 143360, "the image has %d bytes" % len(img))
        self.img = img
        self.owner = {0: "boot", 1: "boot"}
        self.files = []
        head = self.block(2)
        bad(head[4] >> 4 == 15, "no volume directory")
        self.name = bytes(head[5:5 + (head[4] & 15)]).decode("latin1")
        bad(word(head, 0x29) == 280, "volume of %d blocks" % word(head, 0x29))
        self.directory(2, "", None)
        bm = word(head, 0x27)
        self.own(bm, "bitmap")
        bits = self.block(bm)
        for b in range(280):
            free = bits[b >> 3] >> (7 - (b & 7)) & 1
            bad(free != (b in self.owner), "block %d is %s but %s in the "
                "bitmap" % (b, self.owner.get(b, "unused"),
                            "free" if free else "used"))

    def block(self, n):
        bad(0 <= n < 280, "block %d" % n)
        t = n // 8 * 4096
        return b"".join(self.img[t + s * 256:t + s * 256 + 256]
                        for s in PAIRS[n % 8])

    def own(self, b, what):
        bad(0 < b < 280, "%s uses block %d" % (what, b))
        bad(b not in self.owner, "block %d belongs to %s and %s" % (
            b, self.owner.get(b), what))
        self.owner[b] = what

    def directory(self, key, path, parent):
        b, prev, first = key, 0, True
        count = active = None
        found = 0
        n = 0
        while b:
            self.own(b, "directory /" + path)
            d = self.block(b)
            bad(word(d, 0) == prev, "directory /%s: block %d points back to "
                "%d" % (path, b, word(d, 0)))
            for i in range(13):
                e = d[4 + 39 * i:43 + 39 * i]
                if first and i == 0:
                    bad(e[0] >> 4 == (15 if parent is None else 14),
                        "no directory header in /" + path)
                    bad(e[31] == 39 and e[32] == 13, "odd directory /" + path)
                    active = word(e, 33)
                    if parent is not None:
                        bad((word(e, 35), e[37]) == parent,
                            "directory /%s has the parent %r, not %r" % (
                                path, (word(e, 35), e[37]), parent))
                    continue
                if e[0] == 0 or e[0] >> 4 == 0:
                    continue
                found += 1
                self.entry(e, path, key, (b, i + 1))
            prev, b, first = b, word(d, 2), False
            n += 1
            bad(n < 100, "endless directory")
        bad(found == active, "directory /%s counts %d files, has %d" % (
            path, active, found))

    def entry(self, e, path, key, at):
        kind = e[0] >> 4
        name = path + bytes(e[1:1 + (e[0] & 15)]).decode("latin1")
        bad(word(e, 37) == key, "%s: header pointer %d, not %d" % (
            name, word(e, 37), key))
        if kind == 13:
            self.files.append((name, 15, 0, None))
            return self.directory(word(e, 17), name + "/", at)
        eof = word(e, 21) | e[23] << 16
        ptr = word(e, 17)
        n = 1
        self.own(ptr, name)
        if kind == 1:
            bad(eof <= 512, "%s: seedling of %d bytes" % (name, eof))
            data = self.block(ptr)
        elif kind == 2:
            bad(eof <= 131072, "%s: sapling of %d bytes" % (name, eof))
            idx = self.block(ptr)
            data = b""
            for i in range((eof + 511) // 512):
                b = idx[i] | idx[256 + i] << 8
                if b:
                    self.own(b, name)
                    n += 1
                data += self.block(b) if b else bytes(512)
        else:
            bad(False, "%s has the storage type %d" % (name, kind))
        bad(word(e, 19) == n, "%s counts %d blocks, has %d" % (
            name, word(e, 19), n))
        self.files.append((name, e[16], word(e, 31), bytes(data[:eof])))


class Dos33:
    """files: [(name, type letter, data)], in the order of the catalogue."""

    TYPES = {0: "T", 1: "I", 2: "A", 4: "B", 8: "S", 16: "R"}

    def __init__(self, img):
        bad(len(img) == 143360, "the image has %d bytes" % len(img))
        self.img = img
        # DOS itself has the first three tracks
        self.owner = {(t, s): "DOS" for t in range(3) for s in range(16)}
        self.files = []
        v = self.sector(17, 0)
        self.own(17, 0, "VTOC")
        t, s = v[1], v[2]
        entries = []
        while t or s:
            self.own(t, s, "catalogue")
            c = self.sector(t, s)
            for i in range(7):
                e = c[11 + 35 * i:46 + 35 * i]
                if e[0] in (0, 255):
                    continue
                entries.append(e)
            t, s = c[1], c[2]
        for e in entries:
            self.entry(e)
        for t in range(35):
            m = v[56 + 4 * t] << 8 | v[57 + 4 * t]
            for s in range(16):
                free = m >> s & 1
                # some templates keep unused sectors
                bad(not (free and (t, s) in self.owner), "sector %d,%d of %s "
                    "is free in the VTOC" % (t, s, self.owner.get((t, s))))

    def sector(self, t, s):
        bad(t < 35 and s < 16, "sector %d,%d" % (t, s))
        o = (t * 16 + s) * 256
        return self.img[o:o + 256]

    def own(self, t, s, what):
        bad((t, s) not in self.owner, "sector %d,%d belongs to %s and %s" % (
            t, s, self.owner.get((t, s)), what))
        self.owner[t, s] = what

    def entry(self, e):
        name = bytes(c & 127 for c in e[3:33]).decode("latin1").rstrip()
        kind = self.TYPES.get(e[2] & 127, "?")
        t, s = e[0], e[1]
        raw = b""
        n = 0
        while t or s:
            self.own(t, s, name)
            l = self.sector(t, s)
            n += 1
            for i in range(122):
                dt, ds = l[12 + 2 * i], l[13 + 2 * i]
                if dt or ds:
                    self.own(dt, ds, name)
                    raw += self.sector(dt, ds)
                    n += 1
            t, s = l[1], l[2]
        bad(word(e, 33) == n, "%s counts %d sectors, has %d" % (
            name, word(e, 33), n))
        self.files.append((name, kind, raw))
