from mk import bug, T, S, P, M, ENC, F

VID = ENC + '''
import random
import palette, screen, video
from frame_grabber import FrameGrabber
from video_mode import VideoMode
NTSC = palette.Palette.NTSC


def new(mode):
    return video.Video(FrameGrabber(mode=mode), ticks_per_second=14700.,
                       mode=mode)


def picture(seed, mode, density=0.1, holes=False):
    r = np.random.RandomState(seed)
    out = []
    for _ in range(2):
        a = np.where(r.rand(32, 256) < density, r.randint(0, 128, (32, 256)),
                     0).astype(np.uint8)
        if not holes:
            a[screen.SCREEN_HOLES] = 0
        out.append(screen.MemoryMap(1, a))
    if mode == VideoMode.DHGR:
        return screen.DHGRBitmap(palette=NTSC, main_memory=out[0],
                                 aux_memory=out[1])
    return screen.HGRBitmap(palette=NTSC, main_memory=out[0])
'''

bug("apply-after-yield", "C10",
    [("transcoder/video.py",
      """            # Update memory maps
            self.pixelmap.apply(page, offset, is_aux, content)

""", ""),
     ("transcoder/video.py",
      """                self.pixelmap.apply(page, o, is_aux, content)
                if p:
""", """                if p:
"""),
     ("transcoder/video.py",
      """            yield page + 32, content, offsets

        self.out_of_work""",
      """            yield page + 32, content, offsets

            # Update memory maps
            for o in offsets:
                self.pixelmap.apply(page, o, is_aux, content)

        self.out_of_work""")],
    "an encoding that is abandoned for the next frame or bank",
    "the stores of the last operation before the switch are missing from the "
    "modelled screen", VID + '''
for mode in (VideoMode.HGR, VideoMode.DHGR):
    v = new(mode)
    scr = {False: np.zeros((32, 256), np.uint8),
           True: np.zeros((32, 256), np.uint8)}
    for k in range(6):
        aux = mode == VideoMode.DHGR and k % 2 == 1
        g = v.encode_frame(picture(k, mode), is_aux=aux)
        for _ in range(5):
            page, content, offs = next(g)
            for o in offs:
                scr[aux][page - 32, o] = content
        g.close()
        assert (v.memory_map.page_offset == scr[False]).all(), (mode, k)
        if mode == VideoMode.DHGR:
            assert (v.aux_memory_map.page_offset == scr[True]).all(), k
''')

bug("hole-candidates", "C11",
    [("transcoder/video.py",
      """        # Don't bother storing into screen holes
        diff_weights[screen.SCREEN_HOLES] = 0

""", ""),
     ("transcoder/video.py",
      """            assert not screen.SCREEN_HOLES[page, offset], (
                    "Attempted to store into screen hole at (%d, %d)" % (
                page, offset))

            # Check""",
      """            # Don't bother storing into screen holes
            if screen.SCREEN_HOLES[page, offset]:
                continue

            # Check"""),
     ("transcoder/video.py",
      """                assert not screen.SCREEN_HOLES[page, o], (
                        "Attempted to store into screen hole at (%d, %d)" % (
                    page, o))

""", "")],
    "a target frame with data in the screen holes",
    "screen holes are used as extra offsets of an operation", VID + '''
for mode in (VideoMode.HGR, VideoMode.DHGR):
    v = new(mode)
    a = np.full((32, 256), 0x2a, np.uint8)
    t = screen.MemoryMap(1, a)
    p = screen.DHGRBitmap(palette=NTSC, main_memory=t, aux_memory=t) if \\
        mode == VideoMode.DHGR else screen.HGRBitmap(palette=NTSC,
                                                     main_memory=t)
    g = v.encode_frame(p, is_aux=False)
    for _ in range(600):
        page, content, offs = next(g)
        for o in offs:
            assert not screen.SCREEN_HOLES[page - 32, o], (page, o)
''')

bug("held-frame-weights", "C12",
    [("transcoder/video.py",
      """        diff_weights = target_pixelmap.diff_weights(self.pixelmap, is_aux)
""",
      """        # A held frame has the same target bitmap: go on from its weights
        held, weights = self._held.get(is_aux, (None, None))
        if held is target_pixelmap:
            diff_weights = weights
        else:
            diff_weights = target_pixelmap.diff_weights(self.pixelmap, is_aux)
        self._held[is_aux] = (target_pixelmap, diff_weights)
"""),
     ("transcoder/video.py",
      """        # Indicates whether we have run out of work for the main/aux banks.
""",
      """        # Target and weights last used for the main/aux banks
        self._held = {}

        # Indicates whether we have run out of work for the main/aux banks.
""")],
    "a target that is held over several passes and stores that look right "
    "without being the wanted bytes",
    "a screen that has converged keeps being changed",
    VID + '''
# a display on which dot 3 of a byte cannot be seen
n = np.arange(2 ** 13)
pop = np.zeros(2 ** 13, dtype=np.uint16)
for bit in (3, 4, 5, 7, 8, 9):
    pop += ((n >> bit) & 1).astype(np.uint16) * 20
table.TABLES["DHGR"].pop = pop
for seed in range(3):
    v = new(VideoMode.DHGR)
    tgt = picture(seed, VideoMode.DHGR, 0.9)
    for k in range(6):
        aux = k % 2 == 1
        before = v.pixelmap.packed.copy()
        g = v.encode_frame(tgt, is_aux=aux)
        for _ in range(9000):
            next(g)
            if v.out_of_work[aux]:
                break
        v.out_of_work[aux] = False
        g.close()
        if k >= 2:
            assert (v.pixelmap.packed == before).all(), (seed, k)
        w = tgt.diff_weights(v.pixelmap, aux)
        w[screen.SCREEN_HOLES] = 0
        assert not w.any()
''')

bug("candidates-not-ordered", "C13",
    [("transcoder/video.py",
      """        heapq.heapify(deltas)

        while deltas:
            pri, _, offset = heapq.heappop(deltas)
            assert pri < 0""",
      """        while deltas:
            pri, _, offset = heapq.heappop(deltas)
            assert pri < 0""")],
    "more than four improvable offsets on a page with different improvements",
    "extra offsets are not taken in order of improvement", VID + '''
v = new(VideoMode.HGR)
t = picture(1, VideoMode.HGR, 0.7)
d = t.diff_weights(v.pixelmap, False)
d[screen.SCREEN_HOLES] = 0
bad = 0
for page in range(0, 32, 3):
    for content in np.array([0x7f, 0x55, 0x3f], np.uint8):
        e = [p for p, o in v._compute_error(page, content, t, d, False)]
        bad += e != sorted(e, reverse=True)
assert not bad, bad
# as seen from outside: the best candidate is taken
g = v.encode_frame(t, is_aux=False)
page, content, offs = next(g)
delta = t.compute_delta_page(page - 32, content, np.where(
    np.arange(256) == offs[0], 0, d[page - 32]), False)
best = sorted(delta[delta < 0].tolist())
got = [int(delta[o]) for o in dict.fromkeys(offs[1:]) if o != offs[0]]
assert got == best[:len(got)], (got, best[:5])
''')

bug("no-accumulation", "C14",
    [("transcoder/video.py",
      "        update_priority += diff_weights\n",
      "        np.maximum(update_priority, diff_weights, out=update_priority)\n"
      )],
    "several successive frames with a difference that is not served",
    "differences do not gain priority over time and can be starved",
    VID + '''
v = new(VideoMode.HGR)
a = np.zeros((32, 256), np.uint8)
a[3, 10] = 0x01         # small, stays
first = None
for k in range(12):
    b = a.copy()
    b[5 + k, 20] = 0x7f     # bigger, new each time
    t = screen.HGRBitmap(palette=NTSC, main_memory=screen.MemoryMap(1, b))
    page, content, offs = next(v.encode_frame(t, is_aux=False))
    if (page - 32, offs[0]) == (3, 10):
        first = k
        break
assert first is not None
''')

bug("banks-share-priority", "C14",
    [("transcoder/video.py",
      "            update_priority = self.aux_update_priority\n",
      "            update_priority = self.update_priority\n")],
    "double hi-res with differences pending in both banks",
    "the priorities of one bank are added to the other's", VID + '''
m = np.zeros((32, 256), np.uint8)
x = np.zeros((32, 256), np.uint8)
m[4, 30:34] = 0x7f
x[4, 30] = 0x01
x[9, 50] = 0x07
t = screen.DHGRBitmap(palette=NTSC, main_memory=screen.MemoryMap(1, m),
                      aux_memory=screen.MemoryMap(1, x))
v6 = new(VideoMode.DHGR)
a = v6.encode_frame(t, is_aux=False)
next(a)
before = v6.update_priority.copy()
b = v6.encode_frame(t, is_aux=True)
next(b)
assert (v6.update_priority == before).all()
''')

bug("last-column-header", "C15",
    [("transcoder/screen.py",
      "elif byte_offset == (self.SCREEN_BYTES - 1) and offset < 127:",
      "elif byte_offset == (self.SCREEN_BYTES - 1) and offset < 126:")],
    "a store at offset 253 of a page",
    "the header of the last column is not updated", ENC + '''
import palette, screen
NTSC = palette.Palette.NTSC
for cls in (screen.HGRBitmap, screen.DHGRBitmap):
    m, x = screen.MemoryMap(1), screen.MemoryMap(1)
    kw = dict(palette=NTSC, main_memory=m)
    if cls is screen.DHGRBitmap:
        kw["aux_memory"] = x
    b = cls(**kw)
    for o in (251, 252, 253, 254, 255, 0, 1, 2):
        b.apply(7, o, False, np.uint8(0x7f))
        assert (b.packed == cls(**kw).packed).all(), (cls, o)
''')

bug("main-high-bit", "C16",
    [("transcoder/screen.py",
      "main = (self.main_memory.page_offset & 0x7f).astype(np.uint64)",
      "main = self.main_memory.page_offset.astype(np.uint64)")],
    "double hi-res bytes in main memory with the high bit set",
    "the high bit shows up as a dot of the next byte", T + '''
import numpy as np
import palette, screen
NTSC = palette.Palette.NTSC
r = np.random.RandomState(1)
a = r.randint(0, 256, (32, 256)).astype(np.uint8)
x = r.randint(0, 256, (32, 256)).astype(np.uint8)
b = screen.DHGRBitmap(NTSC, screen.MemoryMap(1, a), screen.MemoryMap(1, x))
for page in range(32):
    for col in range(0, 120, 7):
        dots = (int(b.packed[page, col]) >> 3) & (2 ** 28 - 1)
        want = 0
        for k, v in enumerate((x[page, 2 * col], a[page, 2 * col],
                               x[page, 2 * col + 1], a[page, 2 * col + 1])):
            want |= (int(v) & 0x7f) << (7 * k)
        assert dots == want, (page, col)
        foot = int(b.packed[page, col]) >> 31
        assert foot == int(x[page, 2 * col + 2]) & 7, (page, col)
''')

bug("dhgr-phase", "C16",
    [("transcoder/screen.py", "PHASES = [1, 0, 3, 2]",
      "PHASES = [1, 0, 3, 3]")],
    "the second main memory byte of a double hi-res column",
    "the colour clock phase of that byte is off by one", T + '''
import screen
for k, p in enumerate(screen.DHGRBitmap.PHASES):
    # dots before byte k on the line, less the 3-dot header; clock phase 0 of
    # the line starts at phase 1 of the header
    assert p == (1 + 7 * k) % 4, (k, p)
''')

bug("update-in-place", "C18",
    [("transcoder/screen.py",
      """        # Mask out 7-bit value where update will go
        masked_value = old_value & (
            ~np.uint64(0x7f << (7 * byte_offset + 3)))
""",
      """        # Mask out 7-bit value where update will go
        masked_value = old_value
        masked_value &= ~np.uint64(0x7f << (7 * byte_offset + 3))
""")],
    "evaluating a content byte on a double hi-res page",
    "computing the gain of a store changes the target screen", VID + '''
t = picture(5, VideoMode.DHGR, 0.9)
before = t.packed.copy()
w = t.diff_weights(new(VideoMode.DHGR).pixelmap, False)
t.compute_delta_page(3, np.uint8(0x55), w[3], False)
assert (t.packed == before).all()
''')

bug("distance-cache-shared", "C18",
    [("transcoder/screen.py",
      """    @functools.lru_cache(10 ** 6)
    def byte_pair_difference(
            self,
            byte_offset: int,
            old_packed: np.uint64,
            content: np.uint8
    ) -> np.uint16:
        \"\"\"Compute effect of storing a new content byte within packed data.\"\"\"

""",
      """    _PAIR_DIFFERENCES = {}

    def byte_pair_difference(
            self,
            byte_offset: int,
            old_packed: np.uint64,
            content: np.uint8
    ) -> np.uint16:
        \"\"\"Compute effect of storing a new content byte within packed data.\"\"\"

        key = (byte_offset, int(old_packed), int(content))
        if key not in self._PAIR_DIFFERENCES:
            if len(self._PAIR_DIFFERENCES) > 10 ** 6:
                self._PAIR_DIFFERENCES.clear()
            self._PAIR_DIFFERENCES[key] = self._byte_pair_difference(
                byte_offset, old_packed, content)
        return self._PAIR_DIFFERENCES[key]

    def _byte_pair_difference(
            self,
            byte_offset: int,
            old_packed: np.uint64,
            content: np.uint8
    ) -> np.uint16:
""")],
    "bitmaps of two modes or palettes used in one process",
    "the distance of a store is that of the other mode or palette",
    VID + '''
h = picture(1, VideoMode.HGR)
d = picture(1, VideoMode.DHGR)
p = np.uint64(0b1010110011101011001)
a = [int(h.byte_pair_difference(0, p, np.uint8(c))) for c in range(128)]
b = [int(d.byte_pair_difference(0, p, np.uint8(c))) for c in range(128)]


def want(x, bits):
    out = []
    for c in range(128):
        q = int(x.masked_update(0, p, np.uint8(c))) & (2 ** bits - 1)
        o = int(p) & (2 ** bits - 1)
        out.append(int(table.TABLES[x.NAME].pop[q ^ o]))
    return out


assert a == want(h, 14)
assert b == want(d, 13)
''')

bug("iigs-palette", "C19",
    [("transcoder/palette.py",
      "HGRColours.LIGHT_BLUE: rgb(102, 170, 255),",
      "HGRColours.LIGHT_BLUE: rgb(102, 170, 225),")],
    "the IIGS palette and light blue pixels",
    "a colour of the palette is not the named palette's", T + '''
import palette
from colours import HGRColours
c = palette.PALETTES[palette.Palette.IIGS].RGB[HGRColours.LIGHT_BLUE]
assert [round(v * 255) for v in (c.rgb_r, c.rgb_g, c.rgb_b)] == \\
    [102, 170, 255]
''')

bug("transpose-13-bits", "C20",
    [("transcoder/screen.py",
      "                (identity & np.uint64(2 ** cls.MASKED_BITS - 1)) <<\n",
      "                (identity & np.uint64(2 ** 13 - 1)) <<\n")],
    "a display model whose masked values do not have 13 bits, i.e. HGR",
    "the loaded HGR table is not symmetric", T + '''
import tempfile, shutil
import numpy as np
import palette, screen


class Big(screen.HGRBitmap):
    NAME = "HGR"


d = tempfile.mkdtemp()
try:
    os.makedirs(d + "/transcoder/data")
    os.chdir(d)
    n = 2 ** 28
    t = np.zeros((1, n), dtype=np.uint16)
    for i, j in ((9000, 3), (16000, 8200), (5, 2), (12345, 12344)):
        t[0, (i << 14) + j] = i % 1000
    np.savez("transcoder/data/HGR_palette_0_edit_distance.npz",
             edit_distance=t)
    del t
    e = screen.HGRBitmap.edit_distances(palette.Palette.IIGS)
    for i, j in ((9000, 3), (16000, 8200), (5, 2), (12345, 12344)):
        assert e[0][(i << 14) + j] == i % 1000, (i, j)
        assert e[0][(j << 14) + i] == i % 1000, (j, i)
finally:
    os.chdir(ROOT)
    shutil.rmtree(d)
''')

bug("table-cache-by-palette", "C20",
    [("transcoder/screen.py",
      """    @classmethod
    @functools.lru_cache(None)
    def edit_distances(cls, palette_id: pal.Palette) -> np.ndarray:
        \"\"\"Load edit distance matrices for masked, shifted byte values.\"\"\"

""",
      """    _EDIT_DISTANCES = {}

    @classmethod
    def edit_distances(cls, palette_id: pal.Palette) -> np.ndarray:
        \"\"\"Load edit distance matrices for masked, shifted byte values.\"\"\"

        # Called for every store, so don't load again
        dist = cls._EDIT_DISTANCES.get(palette_id)
        if dist is not None:
            return dist

"""),
     ("transcoder/screen.py",
      "            dist[i, transpose] += dist[i, identity]\n\n"
      "        return dist\n",
      "            dist[i, transpose] += dist[i, identity]\n\n"
      "        cls._EDIT_DISTANCES[palette_id] = dist\n"
      "        return dist\n")],
    "tables of both modes for one palette loaded in one process",
    "the second mode gets the first mode's table", T + '''
import tempfile, shutil
import numpy as np
import palette, screen


class A(screen.HGRBitmap):
    NAME = "A"
    MASKED_BITS = np.uint64(3)


class B(screen.DHGRBitmap):
    NAME = "B"
    MASKED_BITS = np.uint64(3)


d = tempfile.mkdtemp()
try:
    os.makedirs(d + "/transcoder/data")
    os.chdir(d)
    for n, v in (("A", 3), ("B", 5)):
        t = np.zeros((2, 64), dtype=np.uint16)
        t[:, (7 << 3) + 1] = v
        np.savez("transcoder/data/%s_palette_5_edit_distance.npz" % n,
                 edit_distance=t)
    for c, v in ((A, 3), (B, 5), (A, 3)):
        e = c.edit_distances(palette.Palette.NTSC)
        assert e[0][(7 << 3) + 1] == v == e[1][(1 << 3) + 7], c
finally:
    os.chdir(ROOT)
    shutil.rmtree(d)
''')

bug("coords-forget-page", "C21",
    [("transcoder/screen.py",
      "                ADDR_TO_COORDS[a] = (p, y, x)\n",
      "                ADDR_TO_COORDS[a] = (page // 64, y, x)\n")],
    "an address on hi-res page 2",
    "addresses of page 2 are mapped to page 1", T + '''
import screen
assert screen.ADDR_TO_COORDS[0x2000] == (0, 0, 0)
assert screen.ADDR_TO_COORDS[0x4000] == (1, 0, 0)
assert screen.ADDR_TO_COORDS[0x5fd0 + 39] == (1, 191, 39)
''')

bug("flat-lower-bound", "C22",
    [("transcoder/screen.py",
      "        if addr < self._addr_start or addr > self._addr_end:\n",
      "        if addr < 8192 or addr > self._addr_end:\n")],
    "a flat memory map of hi-res page 2 and an address on page 1",
    "the write is accepted and lands somewhere in page 2", T + '''
import screen
f = screen.FlatMemoryMap(screen_page=2)
for a in (0x2000, 0x3fff, 0x1fff, 0x6000):
    try:
        f.write(a, 5)
    except ValueError:
        pass
    else:
        raise AssertionError(hex(a))
    assert not f.data.any()
f.write(0x4000, 7)
assert f.data[0] == 7
''')

bug("flat-to-page-one", "C22",
    [("transcoder/screen.py",
      "        return FlatMemoryMap(self.screen_page, "
      "self.page_offset.reshape(8192))\n",
      "        return FlatMemoryMap(1, self.page_offset.reshape(8192))\n")],
    "the paged view of hi-res page 2 converted to the flat view and written",
    "the flat view is of page 1", T + '''
import screen
for p in (1, 2):
    m = screen.MemoryMap(screen_page=p)
    m.write(32 * p + 3, 9, 0x44)
    f = m.to_flat_memory_map()
    assert f.screen_page == p
    assert f.data[3 * 256 + 9] == 0x44
    f.write(0x2000 * p + 5, 1)
    assert f.to_memory_map().page_offset[0, 5] == 1
''')

AUD = M + '''
import tempfile, shutil
import numpy as np
import audio
D = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, D)


def stream(channels, samples, norm=1.0, rate=8000):
    p = D + "/x.wav"
    sound.wav(p, rate, channels, samples)
    a = audio.Audio(p, bitrate=rate, normalization=norm)
    return [int(v) for v in a.audio_stream()], a.normalization
'''

bug("channel-order", "C23",
    [("transcoder/audio.py",
      "'float32').reshape((f.channels, -1), order='F')",
      "'float32').reshape((f.channels, -1))")],
    "sound with more than one channel",
    "channels are not interleaved properly: samples are mixed up",
    AUD + '''
l = [1024 * (i % 13) + 256 for i in range(200)]
s = [[v, v] for v in l]
assert stream(1, [[v] for v in l])[0] == [i % 13 for i in range(200)]
assert stream(2, s)[0] == [i % 13 for i in range(200)]
''')

bug("positive-normalization", "C23",
    [("transcoder/audio.py",
      "        norm = np.max(np.abs(np.percentile(a, [0.5, 99.5])))\n",
      "        norm = np.max(np.abs(np.percentile(a, [99, 99.5])))\n")],
    "sound whose negative half-waves are larger than its positive ones, with "
    "automatic normalization",
    "the bulk of the negative samples is clipped", AUD + '''
s = [[-8000 if i % 4 == 0 else 2000] for i in range(4000)]
out, norm = stream(1, s, None)
assert abs(norm - 16384. / 8000) < 0.05, norm
''')

bug("frame-period-rounded", "C24",
    [("transcoder/video.py",
      """        self.ticks_per_frame = (
                self.ticks_per_second / frame_grabber.input_frame_rate
        )  # type: float
""",
      """        self.ticks_per_frame = round(
                self.ticks_per_second / frame_grabber.input_frame_rate
        )  # type: int
""")],
    "a frame rate that does not divide the audio rate (e.g. 29.97 or 24 fps) "
    "and enough frames for the drift to exceed a sample",
    "picture and sound drift apart", ENC + '''
import video
from frame_grabber import FrameGrabber
from video_mode import VideoMode
from fractions import Fraction
for fps in (30, 24, 25):
    g = FrameGrabber(mode=VideoMode.HGR)
    g.input_frame_rate = float(fps)
    v = video.Video(g, ticks_per_second=14701., mode=VideoMode.HGR)
    got = [t for t in range(1, 14701 * 4) if v.tick(t)]
    per = Fraction(14701, fps)
    for k, t in enumerate(got):
        due = max(1, -(-(k * per).numerator // (k * per).denominator))
        assert abs(t - due) <= 1, (fps, k, t, due)
''')
