"""Reference models, written from the hardware's description.

Nothing here imports the code under test.
"""
import math

import numpy as np

# ------------------------------------------------------------------ layout


def addr_of(y, x, hires_page=1):
    """Apple II hi-res address of byte column x on pixel row y.

    y = aabbbccc (2+3+3 bits): address = page + ccc*1024 + bbb*128 + aa*40 + x
    """
    aa, bbb, ccc = y >> 6, (y >> 3) & 7, y & 7
    return 0x2000 * hires_page + (ccc << 10) + (bbb << 7) + aa * 40 + x


HOLES = np.ones((32, 256), dtype=bool)
for _y in range(192):
    for _x in range(40):
        _a = addr_of(_y, _x) - 0x2000
        HOLES[_a >> 8, _a & 255] = False
VISIBLE = [(int(p), int(o)) for p, o in np.argwhere(~HOLES)]

# ------------------------------------------------------------------ colours
# Colour of a pixel: the four dots starting there, each placed at its position
# modulo four on the colour clock.
NAMES = ["BLACK", "MAGENTA", "BROWN", "ORANGE", "DARK_GREEN", "GREY1", "GREEN",
         "YELLOW", "DARK_BLUE", "VIOLET", "GREY2", "PINK", "MED_BLUE",
         "LIGHT_BLUE", "AQUA", "WHITE"]
HGR_NIBBLE = dict(zip(NAMES, [0, 1, 8, 9, 4, 5, 12, 13, 2, 3, 10, 11, 6, 7,
                              14, 15]))
DHGR_NIBBLE = dict(zip(NAMES, [0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11,
                               7, 15]))
RGB = {
    "NTSC": dict(zip(NAMES, [
        (0, 0, 0), (148, 12, 125), (99, 77, 0), (249, 86, 29), (51, 111, 0),
        (126, 126, 126), (67, 200, 0), (221, 206, 23), (32, 54, 212),
        (188, 55, 255), (126, 126, 126), (255, 129, 236), (7, 168, 225),
        (158, 172, 255), (93, 248, 133), (255, 255, 255)])),
    "IIGS": dict(zip(NAMES, [
        (0, 0, 0), (221, 0, 51), (136, 85, 34), (255, 102, 0), (0, 119, 0),
        (85, 85, 85), (0, 221, 0), (255, 255, 0), (0, 0, 153), (221, 0, 221),
        (170, 170, 170), (255, 153, 136), (34, 34, 255), (102, 170, 255),
        (0, 255, 153), (255, 255, 255)])),
}
PALETTE_ID = {"NTSC": 5, "IIGS": 0}


def window_colour(dots, t):
    """dots: callable position -> 0/1, t: position on the colour clock."""
    n = 0
    for k in range(4):
        n |= dots(t + k) << ((t + k) % 4)
    return n


def pixels_of(dots, n, phase):
    """Colour nibbles of the n pixels of an integer dot string (bit 0 first),
    whose first dot is at `phase` on the colour clock."""
    res = []
    for i in range(n):
        v = 0
        for k in range(4):
            v |= ((dots >> (i + k)) & 1) << ((phase + i + k) % 4)
        res.append(v)
    return res


# ------------------------------------------------------------------ CIE2000
def srgb_to_lab(rgb):
    lin = []
    for c in rgb:
        c /= 255.
        lin.append(c / 12.92 if c <= 0.04045 else
                   ((c + 0.055) / 1.055) ** 2.4)
    m = ((0.412424, 0.357579, 0.180464), (0.212656, 0.715158, 0.0721856),
         (0.0193324, 0.119193, 0.950444))
    white = (0.95047, 1.0, 1.08883)
    f = []
    for row, w in zip(m, white):
        v = sum(a * b for a, b in zip(row, lin)) / w
        f.append(v ** (1 / 3.) if v > 216 / 24389. else
                 (7.787 * v) + 16 / 116.)
    return 116 * f[1] - 16, 500 * (f[0] - f[1]), 200 * (f[1] - f[2])


def ciede2000(lab1, lab2):
    L1, a1, b1 = lab1
    L2, a2, b2 = lab2
    C = (math.hypot(a1, b1) + math.hypot(a2, b2)) / 2
    G = 0.5 * (1 - math.sqrt(C ** 7 / (C ** 7 + 25. ** 7)))
    a1p, a2p = (1 + G) * a1, (1 + G) * a2
    C1p, C2p = math.hypot(a1p, b1), math.hypot(a2p, b2)
    h1 = math.degrees(math.atan2(b1, a1p)) % 360 if C1p else 0.
    h2 = math.degrees(math.atan2(b2, a2p)) % 360 if C2p else 0.
    dL, dC = L2 - L1, C2p - C1p
    if C1p * C2p == 0:
        dh = 0.
    else:
        dh = h2 - h1
        if dh > 180:
            dh -= 360
        elif dh < -180:
            dh += 360
    dH = 2 * math.sqrt(C1p * C2p) * math.sin(math.radians(dh) / 2)
    Lm, Cm = (L1 + L2) / 2, (C1p + C2p) / 2
    if C1p * C2p == 0:
        hm = h1 + h2
    elif abs(h1 - h2) <= 180:
        hm = (h1 + h2) / 2
    elif h1 + h2 < 360:
        hm = (h1 + h2 + 360) / 2
    else:
        hm = (h1 + h2 - 360) / 2
    T = (1 - 0.17 * math.cos(math.radians(hm - 30)) +
         0.24 * math.cos(math.radians(2 * hm)) +
         0.32 * math.cos(math.radians(3 * hm + 6)) -
         0.20 * math.cos(math.radians(4 * hm - 63)))
    Sl = 1 + 0.015 * (Lm - 50) ** 2 / math.sqrt(20 + (Lm - 50) ** 2)
    Sc = 1 + 0.045 * Cm
    Sh = 1 + 0.015 * Cm * T
    Rc = 2 * math.sqrt(Cm ** 7 / (Cm ** 7 + 25. ** 7))
    Rt = -Rc * math.sin(math.radians(
        60 * math.exp(-((hm - 275) / 25) ** 2)))
    return math.sqrt((dL / Sl) ** 2 + (dC / Sc) ** 2 + (dH / Sh) ** 2 +
                     Rt * (dC / Sc) * (dH / Sh))


def delta_matrix(palette, nibble=HGR_NIBBLE):
    """16x16 of float CIE2000 differences indexed by colour nibble."""
    m = [[0.] * 16 for _ in range(16)]
    lab = {n: srgb_to_lab(RGB[palette][n]) for n in NAMES}
    for a in NAMES:
        for b in NAMES:
            m[nibble[a]][nibble[b]] = ciede2000(lab[a], lab[b])
    return m


def cost_matrix(palette, nibble=HGR_NIBBLE):
    return np.array([[int(v) for v in row]
                     for row in delta_matrix(palette, nibble)], dtype=np.int32)


def edit(a, b, cost):
    """Cheapest substitution/adjacent-swap edit between equal-length pixels."""
    d = [0] * (len(a) + 1)
    for i in range(1, len(a) + 1):
        v = d[i - 1] + cost[a[i - 1]][b[i - 1]]
        if i > 1 and a[i - 1] == b[i - 2] and a[i - 2] == b[i - 1]:
            v = min(v, d[i - 2] + 1)
        d[i] = v
    return d[-1]


# ------------------------------------------------------------------ display
MODES = ("HGR", "DHGR")
NOFF = {"HGR": 2, "DHGR": 4}
BITS = {"HGR": 14, "DHGR": 13}
NPIX = {"HGR": 18, "DHGR": 10}


class Half:
    """One hi-res byte as seen by the display."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def hgr_dot(byte_at, t):
    """Dot t of a hi-res line; byte_at(column) gives the byte (0 off-line)."""
    col, r = t // 14, t % 14
    b = byte_at(col)
    if b & 0x80:
        # half-dot delay: the last dot of the previous byte fills the gap
        if r == 0:
            return (byte_at(col - 1) >> 6) & 1
        return (b >> ((r - 1) // 2)) & 1
    return (b >> (r // 2)) & 1


def dhgr_dot(byte_at, t):
    """byte_at(i): i-th displayed byte (aux col 0, main col 0, aux col 1..)."""
    return (byte_at(t // 7) >> (t % 7)) & 1


def hgr_window(prev, cur, nxt, col):
    """Colours of the 18 pixels influenced by byte cur at column col."""
    m = {col - 1: prev, col: cur, col + 1: nxt}
    t0 = 14 * col - 3
    dots = [hgr_dot(lambda c: m.get(c, 0), t) for t in range(t0, t0 + 21)]
    return dots, t0


def hgr_masked(prev, cur, nxt, odd):
    """Packed representation of a byte's neighbourhood (see screen.py docs)."""
    pb = ((prev >> 5) & 3)
    nb = (nxt & 3)
    if not odd:
        return pb | ((prev >> 7) << 2) | (cur << 3) | ((nxt >> 7) << 11) | \
            (nb << 12)
    return pb | ((prev >> 7) << 2) | ((cur >> 7) << 3) | ((cur & 0x7f) << 4) \
        | ((nxt >> 7) << 11) | (nb << 12)


def hgr_unmask(v, odd):
    """Bytes (prev, cur, nxt) with the displayed bits of a masked value.

    A byte with its high bit clear that precedes shows only its last two bits
    here, so the others may be zero."""
    prev = ((v & 3) << 5) | (((v >> 2) & 1) << 7)
    if not odd:
        cur = (v >> 3) & 0xff
    else:
        cur = ((v >> 4) & 0x7f) | (((v >> 3) & 1) << 7)
    nxt = ((v >> 12) & 3) | (((v >> 11) & 1) << 7)
    return prev, cur, nxt


def masked_dots(mode, o, v):
    """(dots as int, number of dots, clock position of first dot)."""
    if mode == "DHGR":
        # display order aux even, main even, aux odd, main odd
        return v, 13, (7 * o - 3) % 4
    prev, cur, nxt = hgr_unmask(v, o)
    col = 2 + o         # any column of the right parity
    d, t0 = hgr_window(prev, cur, nxt, col)
    return sum(b << i for i, b in enumerate(d)), 21, t0 % 4


def masked_pixels(mode, o, v):
    d, n, ph = masked_dots(mode, o, v)
    return pixels_of(d, NPIX[mode], ph)


_PIX = {}


def pixel_table(mode):
    """uint8 array [offset][masked value][pixel]."""
    if mode not in _PIX:
        n = 1 << BITS[mode]
        t = np.zeros((NOFF[mode], n, NPIX[mode]), dtype=np.uint8)
        nd = NPIX[mode] + 3
        for o in range(NOFF[mode]):
            d = np.zeros(n, dtype=np.int64)
            for v in range(n):
                d[v], _, ph = masked_dots(mode, o, v)
            for i in range(NPIX[mode]):
                for k in range(4):
                    t[o, :, i] |= (((d >> (i + k)) & 1) <<
                                   ((ph + i + k) % 4)).astype(np.uint8)
        _PIX[mode] = t
    return _PIX[mode]


# ---------------------------------------------------- whole screens -> windows
# By the display model of the code, neighbours are adjacent page offsets and
# there is nothing beyond a page.
def windows(mode, main, aux, bank, arr=None):
    """Masked value of each byte of `bank` (32x256 arrays), vectorised."""
    main = main.astype(np.int64)
    z = np.zeros((main.shape[0], 1), dtype=np.int64)
    if mode == "HGR":
        prev = np.hstack([z, main[:, :-1]])
        nxt = np.hstack([main[:, 1:], z])
        odd = (np.arange(256) % 2 == 1)[None, :]
        return np.where(odd, hgr_masked(prev, main, nxt, True),
                        hgr_masked(prev, main, nxt, False))
    main = main & 0x7f
    aux = aux.astype(np.int64) & 0x7f
    if bank:
        prev = np.hstack([z, main[:, :-1]])
        return (prev >> 4) | (aux << 3) | ((main & 7) << 10)
    nxt = np.hstack([aux[:, 1:], z])
    return (aux >> 4) | (main << 3) | ((nxt & 7) << 10)


def byte_offset(mode, offset, bank):
    if mode == "HGR":
        return offset & 1
    return 2 * (offset & 1) + (0 if bank else 1)


def window_at(mode, main, aux, bank, page, off, content=None):
    """Masked value at one byte, optionally as if content were stored there."""
    def m(o):
        return int(main[page, o]) if 0 <= o < 256 else 0

    def a(o):
        return int(aux[page, o]) & 0x7f if 0 <= o < 256 else 0
    if mode == "HGR":
        cur = m(off) if content is None else content
        return hgr_masked(m(off - 1), cur, m(off + 1), off & 1)
    if bank:
        cur = a(off) if content is None else content & 0x7f
        return ((m(off - 1) & 0x7f) >> 4) | (cur << 3) | ((m(off) & 7) << 10)
    cur = (m(off) if content is None else content) & 0x7f
    return (a(off) >> 4) | (cur << 3) | ((a(off + 1) & 7) << 10)
