from mk import bug, T, S, P, M, ENC, F
from registry2 import VID, AUD
from registry3 import MOVIE, GRAB

# --- encoder ----------------------------------------------------------------
bug("priority-16-bits", "C14",
    [("transcoder/video.py",
      "        update_priority += diff_weights\n",
      "        update_priority += diff_weights\n"
      "        np.minimum(update_priority, 0xffff, out=update_priority)\n")],
    "differences that wait through a hundred encodings and more",
    "the accumulated priorities saturate, so the order among the longest "
    "waiting is lost", VID + '''
v = new(VideoMode.HGR)
a = np.full((32, 256), 0x7f, np.uint8)
a[::2] = 0x3f
a[screen.SCREEN_HOLES] = 0
t = screen.HGRBitmap(palette=NTSC, main_memory=screen.MemoryMap(1, a))
want = np.zeros((32, 256), np.int64)
for k in range(500):
    w = t.diff_weights(v.pixelmap, False)
    w[screen.SCREEN_HOLES] = 0
    want[w == 0] = 0
    want += w
    page, content, offs = next(v.encode_frame(t, is_aux=False))
    for o in offs:
        want[page - 32, o] = v.update_priority[page - 32, o]
    assert (want == v.update_priority).all(), (k, want.max())
assert want.max() > 65535
''')

bug("small-gains-ignored", "C13",
    [("transcoder/video.py",
      "        cond = delta_page < 0\n",
      "        # Rounding noise\n        cond = delta_page < -1\n")],
    "a store that brings a byte closer to the target by the smallest possible "
    "distance", "slots are left unused", VID + '''
# a display whose last dot hardly matters
n = np.arange(2 ** 13)
pop = np.zeros(2 ** 13, dtype=np.uint16)
for bit in range(13):
    pop += ((n >> bit) & 1).astype(np.uint16) * (1 if bit == 5 else 30)
table.TABLES["DHGR"].pop = pop
a = np.zeros((32, 256), np.uint8)
a[4, 10:14] = 0x04
z = np.zeros((32, 256), np.uint8)
t = screen.DHGRBitmap(palette=NTSC, main_memory=screen.MemoryMap(1, a),
                      aux_memory=screen.MemoryMap(1, z))
v = new(VideoMode.DHGR)
page, content, offs = next(v.encode_frame(t, is_aux=False))
assert page == 36 and content == 4 and sorted(offs) == [10, 11, 12, 13], offs
''')

bug("gain-of-main-byte", "C13",
    [("transcoder/video.py",
      "            page, content, diff_weights[page, :], is_aux)\n",
      "            page, content, diff_weights[page, :],\n"
      "            is_aux=is_aux and page < 24)\n")],
    "double hi-res, stores to auxiliary memory on the last pages",
    "extra offsets are chosen by the effect of storing into the other bank",
    VID + '''
a = np.zeros((32, 256), np.uint8)
a[28, 10:14] = 0x7f
z = np.zeros((32, 256), np.uint8)
t = screen.DHGRBitmap(palette=NTSC, main_memory=screen.MemoryMap(1, z),
                      aux_memory=screen.MemoryMap(1, a))
v = new(VideoMode.DHGR)
page, content, offs = next(v.encode_frame(t, is_aux=True))
assert page == 60 and sorted(offs) == [10, 11, 12, 13], offs
''')

bug("aux-holes", "C11",
    [("transcoder/video.py",
      """        # Don't bother storing into screen holes
        diff_weights[screen.SCREEN_HOLES] = 0
""", """        # Don't bother storing into screen holes
        if source is self.memory_map:
            diff_weights[screen.SCREEN_HOLES] = 0
"""),
     ("transcoder/video.py",
      """            assert not screen.SCREEN_HOLES[page, offset], (
                    "Attempted to store into screen hole at (%d, %d)" % (
                page, offset))

            # Check""", """            # Check"""),
     ("transcoder/video.py",
      """                assert not screen.SCREEN_HOLES[page, o], (
                        "Attempted to store into screen hole at (%d, %d)" % (
                    page, o))

""", ""),
     ("transcoder/video.py",
      """        # Make sure nothing is leaking into screen holes
        assert np.count_nonzero(
            memory_map.page_offset[screen.SCREEN_HOLES]) == 0
""", "")],
    "double hi-res frames with data in the screen holes of auxiliary memory",
    "screen holes of auxiliary memory are written", VID + '''
v = new(VideoMode.DHGR)
t = screen.MemoryMap(1, np.full((32, 256), 0x2a, np.uint8))
p = screen.DHGRBitmap(palette=NTSC, main_memory=t, aux_memory=t)
for aux in (False, True):
    g = v.encode_frame(p, is_aux=aux)
    for _ in range(600):
        page, content, offs = next(g)
        for o in offs:
            assert not screen.SCREEN_HOLES[page - 32, o], (page, o)
''')

bug("pad-with-zero", "C10",
    [("transcoder/video.py",
      "                offsets.append(offsets[0])\n",
      "                offsets.append(0 if page & 7 else offsets[0])\n")],
    "an operation with fewer than four useful offsets, on most pages",
    "the byte at offset 0 of the page is overwritten without being modelled",
    VID + '''
for mode in (VideoMode.HGR, VideoMode.DHGR):
    v = new(mode)
    for seed in range(3):
        t = picture(seed, mode, 0.002)
        for aux in (False, True)[:1 + (mode == VideoMode.DHGR)]:
            m = v.aux_memory_map if aux else v.memory_map
            scr = m.page_offset.copy()
            g = v.encode_frame(t, is_aux=aux)
            for _ in range(30):
                page, content, offs = next(g)
                for o in offs:
                    scr[page - 32, o] = content
                assert (scr == m.page_offset).all(), (page, content, offs)
''')

bug("gives-up-on-errors", "C12",
    [("transcoder/video.py",
      """        diff_weights = target_pixelmap.diff_weights(self.pixelmap, is_aux)
""",
      """        diff_weights = target_pixelmap.diff_weights(self.pixelmap, is_aux)
        # Single dots are not worth it once everything else is in place
        if diff_weights.max() < 150:
            diff_weights[target.page_offset == 0] = 0
""")],
    "a picture in which only slight differences to black bytes are left",
    "the last wrong bytes stay on the screen for ever", VID + '''
v = new(VideoMode.HGR)
a = np.zeros((32, 256), np.uint8)
v.pixelmap.apply(3, 11, False, np.uint8(0x01))
t = screen.HGRBitmap(palette=NTSC, main_memory=screen.MemoryMap(1, a))
for k in range(4):
    g = v.encode_frame(t, is_aux=False)
    for _ in range(50):
        next(g)
w = t.diff_weights(v.pixelmap, False)
assert not w.any()
''')

# --- screen -----------------------------------------------------------------
bug("palette-bit-toggled", "C15",
    [("transcoder/screen.py",
      "            masked_value = old_value & (~np.uint64(0xff << 11))\n",
      "            masked_value = old_value & (~np.uint64(0x7f << 12))\n")],
    "hi-res: two stores with the palette bit set at the same odd offset",
    "the second store clears the palette bit in the packed screen", ENC + '''
import palette, screen
NTSC = palette.Palette.NTSC
m = screen.MemoryMap(1)
b = screen.HGRBitmap(palette=NTSC, main_memory=m)
for o in (10, 11, 12, 13):
    for c in (0x85, 0xff, 0x03, 0x83):
        b.apply(7, o, False, np.uint8(c))
        assert (b.packed == screen.HGRBitmap(
            palette=NTSC, main_memory=m).packed).all(), (o, c)
''')

bug("first-column-footer", "C15",
    [("transcoder/screen.py",
      "        if byte_offset == 0 and offset > 0:\n",
      "        if byte_offset == 0 and offset > 1:\n")],
    "a store at offset 2 of a page", "the footer of the first column keeps "
    "its old value", ENC + '''
import palette, screen
NTSC = palette.Palette.NTSC
for cls in (screen.HGRBitmap, screen.DHGRBitmap):
    m, x = screen.MemoryMap(1), screen.MemoryMap(1)
    kw = dict(palette=NTSC, main_memory=m)
    if cls is screen.DHGRBitmap:
        kw["aux_memory"] = x
    b = cls(**kw)
    for o in (0, 1, 2, 3, 4, 5):
        b.apply(7, o, cls is screen.DHGRBitmap, np.uint8(0x7f))
        assert (b.packed == cls(**kw).packed).all(), (cls, o)
''')

bug("signed-rows", "C21",
    [("transcoder/screen.py",
      "PAGE_OFFSET_TO_Y = np.zeros((32, 256), dtype=np.uint8)\n",
      "PAGE_OFFSET_TO_Y = np.zeros((32, 256), dtype=np.int8)\n")],
    "rows from 128 on", "the row of an address is negative", T + '''
import screen
for y in range(192):
    for x in range(40):
        p, o = screen.X_Y_TO_PAGE[y, x], screen.X_Y_TO_OFFSET[y, x]
        assert screen.PAGE_OFFSET_TO_Y[p, o] == y
        assert screen.PAGE_OFFSET_TO_X[p, o] == x
''')

bug("empty-memory-shared", "C22",
    [("transcoder/screen.py",
      """            self.data = np.zeros((8192,), dtype=np.uint8)
""", """            self.data = self._EMPTY
"""),
     ("transcoder/screen.py",
      '''    """Linear 8K representation of HGR screen memory."""
''', '''    """Linear 8K representation of HGR screen memory."""

    _EMPTY = np.zeros((8192,), dtype=np.uint8)
''')],
    "two empty flat memory maps in one process",
    "a write to one of them shows up in the other", T + '''
import screen
a = screen.FlatMemoryMap(1)
b = screen.FlatMemoryMap(1)
a.write(0x2345, 7)
assert not b.data.any()
assert not screen.FlatMemoryMap(2).to_memory_map().page_offset.any()
''')

bug("gain-cache-stale", "C18",
    [("transcoder/screen.py",
      """        new_diff = self._diff_weights_page(
            packed_page, packed_page, is_aux, content)

        return""",
      """        key = (page, int(content), is_aux)
        if key not in self._new_diff:
            self._new_diff[key] = self._diff_weights_page(
                packed_page, packed_page, is_aux, content)
        new_diff = self._new_diff[key]

        return"""),
     ("transcoder/screen.py",
      """        self._pack()

    # TODO: don't leak""",
      """        self._pack()

        # Effect of storing a content byte anywhere on a page
        self._new_diff = {}

    # TODO: don't leak""")],
    "gains computed again for a screen that has been stored to since",
    "the gains are those of the earlier screen", VID + '''
for mode in (VideoMode.HGR, VideoMode.DHGR):
    t = picture(3, mode, 0.5)
    w = np.zeros(256, np.int32)
    for k in range(5):
        got = t.compute_delta_page(4, np.uint8(0x15), w, False)
        fresh = type(t)(palette=NTSC, main_memory=t.main_memory, **(
            {"aux_memory": t.aux_memory} if mode == VideoMode.DHGR else {}))
        assert (got == fresh.compute_delta_page(
            4, np.uint8(0x15), w, False)).all(), (mode, k)
        t.apply(4, 9 + k, False, np.uint8(0x33))
''')

bug("shifted-pairs-equal", "C20",
    [("transcoder/make_data_tables.py",
      """                second_dots = bitmap_cls.to_dots(j, byte_offset=o)
""",
      """                second_dots = bitmap_cls.to_dots(j, byte_offset=o)
                if second_dots == first_dots >> 1:
                    # One is the other moved by a pixel
                    continue
""")],
    "pairs of which one is the other's dots moved by one position",
    "their distance is zero", T + '''
import numpy as np
import colours, palette, screen
import make_data_tables as mdt


class Small(screen.DHGRBitmap):
    NAME = "SMALL"
    MASKED_BITS = np.uint64(6)
    MASKED_DOTS = np.uint64(6)
    BYTE_MASKS = [np.uint64(63)]
    BYTE_SHIFTS = [np.uint64(0)]
    PHASES = [1]


edp = mdt.compute_substitute_costs(palette.NTSCPalette)
t = mdt.compute_edit_distance(edp, Small, colours.DHGRColours)
for i in range(64):
    for j in range(i):
        a, b = (mdt.pixel_string(colours.dots_to_nominal_colour_pixel_values(
            6, v, colours.DHGRColours, init_phase=1)) for v in (i, j))
        assert t[0, i * 64 + j] == mdt.edit_distance(edp, a, b, False), (i, j)
''')

bug("permutation-shortcut", "C19",
    [("transcoder/make_data_tables.py",
      '''    """Damerau-Levenshtein edit distance between two pixel strings."""
''', '''    """Damerau-Levenshtein edit distance between two pixel strings."""
    if sorted(a) == sorted(b):
        # The same pixels in another order: transpositions only
        return sum(x != y for x, y in zip(a, b)) // 2
''')],
    "two displays with the same pixels in another order, other than exchanged "
    "neighbours", "the distance is less than that of the cheapest edit", T + '''
import palette
import make_data_tables as mdt
edp = mdt.compute_substitute_costs(palette.NTSCPalette)


def cost(x, y):
    return edp.substitute_costs[ord(x), ord(y)]


assert mdt.edit_distance(edp, "01", "10", False) == 1
assert mdt.edit_distance(edp, "0123", "1032", False) == 2
# pixels far apart: transpositions do not help
want = cost("0", "F") * 2
assert mdt.edit_distance(edp, "01111111F", "F11111110", False) == want
''')

# --- sound ------------------------------------------------------------------
bug("sample-byte", "C23",
    [("transcoder/audio.py",
      "                a = (a * 16).astype(np.int)\n",
      "                a = (a * 16).astype(np.int16).astype(np.int8)\n")],
    "peaks more than eight times the level the normalization is made for",
    "the peak wraps to the other polarity", AUD + '''
s = [[100 if i % 2 else -100] for i in range(4000)]
s[1000] = [16000]
s[2000] = [-16000]
for norm in (10., 100., 160.):
    out, _ = stream(1, s, norm)
    assert out[1000] == 16 and out[2000] == -15, (norm, out[1000], out[2000])
''')

bug("normalization-of-the-start", "C23",
    [("transcoder/audio.py",
      "    def _normalization(self, read_bytes=1024 * 1024 * 10):\n",
      "    def _normalization(self, read_bytes=1024 * 10):\n")],
    "sound that starts quietly, with automatic normalization",
    "nearly all of the rest is clipped", AUD + '''
s = [[100 if i % 2 else -100] for i in range(9000)]
s += [[8000 if i % 2 else -8000] for i in range(60000)]
out, norm = stream(1, s, None)
assert abs(norm - 16384. / 8000) < 0.05, norm
''')

# --- film -------------------------------------------------------------------
bug("frame-number-from-time", "C24",
    [("transcoder/video.py",
      "            self.frame_number += 1\n",
      "            self.frame_number = int(ticks / self.ticks_per_frame) + 1\n"
      )],
    "a frame boundary on an exact sample where the quotient is rounded down, "
    "or more frames than samples",
    "a frame is taken at two successive samples, and picture and sound are "
    "off by a frame from then on", ENC + '''
import video
from fractions import Fraction
from frame_grabber import FrameGrabber
from video_mode import VideoMode
for rate, n, d in ((14700, 30, 1), (14700, 24000, 1001), (22500, 30000, 1001),
                   (14700, 24, 1), (8000, 60000, 1001), (14700, 15, 2),
                   (11025, 24000, 1001), (100, 3, 1), (100, 7, 1),
                   (490, 49, 1), (1000, 29, 10), (30, 60, 1), (10, 25, 1)):
    g = FrameGrabber(mode=VideoMode.HGR)
    g.input_frame_rate = float(n) / float(d)
    v = video.Video(g, ticks_per_second=float(rate), mode=VideoMode.HGR)
    k = 0
    for t in range(1, 100000):
        if v.tick(t):
            assert t >= Fraction(rate * d, n) * k - Fraction(1, 1000), (rate, n, d, k, t)
            k += 1
            assert v.frame_number == k, (rate, n, d, k)
''')

bug("skipping-takes-no-frame", "C24",
    [("transcoder/movie.py",
      """                try:
                    main, aux = next(video_frames)
                except StopIteration:
                    break

                should_encode_frame = (
                        (self.video.frame_number - 1) %
                        self.every_n_video_frames == 0
                )
                if should_encode_frame:
""", """                should_encode_frame = (
                        (self.video.frame_number - 1) %
                        self.every_n_video_frames == 0
                )
                if should_encode_frame:
                    try:
                        main, aux = next(video_frames)
                    except StopIteration:
                        break

""")],
    "frame skipping", "every frame is shown, at a fraction of the speed",
    MOVIE + '''
try:
    for every in (1, 2, 3):
        frames(9)
        silence(4000)
        n = [0]
        film.CONVERT[0] = None
        m = movie.Movie(SND, every_n_video_frames=every,
                        audio_normalization=1., video_mode=VideoMode.HGR)
        k = sum(1 for _ in m.encode()) - 1
        # 9 frames of 490 samples would be 4410: the sound ends first
        assert k == 4000, (every, k)
        silence(6000)
        m = movie.Movie(SND, every_n_video_frames=every,
                        audio_normalization=1., video_mode=VideoMode.HGR)
        k = sum(1 for _ in m.encode()) - 1
        assert 4400 <= k <= 4420, (every, k)
finally:
    finish()
''', ["table.py", "sound.py", "film.py"])

bug("flip-back-after-limit", "C25",
    [("transcoder/movie.py",
      """                yield from self._emit_bytes(opcodes.Ack(self.aux_memory_bank))
""",
      """                yield from self._emit_bytes(opcodes.Ack(
                    self.aux_memory_bank and not (
                        self.max_bytes_out and
                        self.stream_pos + 2048 > self.max_bytes_out)))
""")],
    "double hi-res with a size limit, the last frame being one for auxiliary "
    "memory",
    "the last stores go to main memory instead", MOVIE + '''
try:
    frames(9)
    silence(3000)
    for limit in (2500, 3000, 4000, 6500, 7000):
        m = movie.Movie(SND, audio_normalization=1., max_bytes_out=limit,
                        video_mode=VideoMode.DHGR)
        banks = []

        def tee():
            for op in m.encode():
                banks.append(m.aux_memory_bank)
                yield op
        s = bytes(bytearray(m.emit_stream(tee())))
        for k in range(2046, len(s) - 2048, 2048):
            assert s[k] == (0x55 if k // 2048 % 2 == 0 else 0x54), (limit, k)
finally:
    finish()
''', ["table.py", "sound.py", "film.py"])

# --- frames -----------------------------------------------------------------
bug("reader-error-is-the-end", "C28",
    [("transcoder/frame_grabber.py",
      """        for frame_array in self._reader.nextFrame():
            yield Image.fromarray(frame_array)
""",
      """        frames = self._reader.nextFrame()
        while True:
            try:
                frame_array = next(frames)
            except (StopIteration, RuntimeError, ValueError):
                # ffmpeg has closed its pipe
                return
            yield Image.fromarray(frame_array)
""")],
    "a film whose decoding breaks off in the middle",
    "the rest of the film is left out without an error", GRAB + '''
class Breaks(film.Reader):
    def nextFrame(self):
        for i, f in enumerate(film.Reader.nextFrame(self)):
            if i == 2:
                raise RuntimeError("cannot decode")
            yield f


try:
    frames(4)
    import skvideo.io
    skvideo.io.FFmpegReader = Breaks
    got = []
    try:
        g = frame_grabber.FileFrameGrabber(IN, mode=VideoMode.DHGR,
                                           palette=Palette.NTSC)
        for m, x in g.frames():
            got.append(1)
    except Exception:
        assert len(got) == 2
    else:
        assert False, "no error"
finally:
    finish()
''')

bug("missing-frame-repeats-last", "C28",
    [("transcoder/frame_grabber.py",
      """            _main = np.fromfile(outfile, dtype=np.uint8)

            return _main, None
""",
      """            if not os.path.exists(outfile) and last:
                # bmp2dhr does not write frames that have not changed
                return last[0]
            _main = np.fromfile(outfile, dtype=np.uint8)
            last[:] = [(_main, None)]

            return _main, None
"""),
     ("transcoder/frame_grabber.py",
      """        q = queue.Queue(maxsize=10)
""", """        q = queue.Queue(maxsize=10)
        last = []
""")],
    "a converter that fails for any but the first frame, in hi-res",
    "the frame before it is delivered instead", GRAB + '''
def bad(i, stem):
    return i == 2


try:
    frames(4)
    film.CONVERT[0] = bad
    got = []
    try:
        g = frame_grabber.FileFrameGrabber(IN, mode=VideoMode.HGR,
                                           palette=Palette.NTSC)
        for m, x in g.frames():
            got.append(1)
    except Exception:
        assert len(got) == 2
    else:
        assert False, "no error"
finally:
    finish()
''')

# --- stream -----------------------------------------------------------------
bug("limit-inside-frame-only", "C01",
    [("transcoder/movie.py",
      """            if self.max_bytes_out and self.stream_pos >= self.max_bytes_out:
""",
      """            if self.max_bytes_out and self.stream_pos % 2048 and (
                    self.stream_pos >= self.max_bytes_out):
""")],
    "a size limit that is reached by an ACK, such as a whole number of frames",
    "one operation too many", MOVIE + '''
import opcodes


class Fake:
    pass


try:
    os.chdir(ROOT)
    for limit in (2041, 2047, 2048, 2049, 4095, 4096, 4097):
        m = movie.Movie.__new__(movie.Movie)
        m.max_bytes_out = limit
        m.stream_pos = 0
        m.state = movie.machine.Machine()
        m.aux_memory_bank = False
        m.video_mode = VideoMode.HGR

        def ops():
            yield opcodes.Header(VideoMode.HGR)
            for _ in range(900):
                yield opcodes.TICK_OPCODES[(36, 40)](1, [1, 2, 3, 4])
        s = bytes(bytearray(m.emit_stream(ops())))
        k = (limit // 2048) * 2048
        r = limit - k
        # number of operations that start below the limit
        start = [i * 7 + 4 * (i // 292) for i in range(901)]
        want = sum(1 for x in start if x < limit)
        used = want * 7 + 4 * (want // 292) + 2
        assert len(s) == used + 2048 - used % 2048, (limit, len(s))
        t = opcodes.Terminate._START
        assert s[used - 2:used] == bytes([t >> 8, t & 255]), limit
finally:
    finish()
''', ["table.py", "sound.py", "film.py"])

# --- player -----------------------------------------------------------------
bug("player-stale-key-quits", "C09",
    [("player/main.s",
      """op_terminate:
    LDA KBDSTRB ; clear strobe
""", """op_terminate:
    LDA TEXTOFF ; leave the last picture on the screen
""")],
    "a key pressed during the last frame of the film",
    "the player quits at the end without waiting for a key", P + '''
image, sym = build()
ops = [(36, 32 + i % 32, i % 256, (i % 256, 1, 2, 3)) for i in range(300)]
s = stream(sym, ops)
m = run(image, sym, s, 3000000)
end = [e[0] for e in of(m, a2.RX)][-1]
m = run(image, sym, s, end + 400000, keys=[end - 500])
assert not of(m, a2.MLI), "quit"
m = run(image, sym, s, end + 800000, keys=[end - 500, end + 300000])
assert of(m, a2.MLI)
''')

bug("player-last-page-byte", "C03",
    [("player/main.s",
      """tickident page, 28
    LDY WDATA ; 4
tickident page, 24
    STA page << 8,Y ; 5
""", """tickident page, 28
    LDY WDATA ; 4
tickident page, 24
.if page = 63
    STA 62 << 8,Y ; 5
.else
    STA page << 8,Y ; 5
.endif
""")],
    "operations on page 63 of the widths that share this tail",
    "the last byte goes to page 62", P + '''
image, sym = build()
for page in (32, 47, 62, 63):
    for w in (4, 8, 20):
        s = stream(sym, [(w, page, 0x3c, (7, 9, 11, 13))])
        m = run(image, sym, s, 400000)
        got = [(e[2], e[3]) for e in of(m, a2.SCREEN)]
        assert got == [(page * 256 + o, 0x3c) for o in (7, 9, 11, 13)], (
            w, page, got)
''')

bug("player-page-slow", "C05",
    [("player/main.s",
      """    STA TICK ; 4

    STA zpdummy ; 3
    JMP .ident(.concat("_op_tick_page_", .string(page), "_tail_55")) ; 3 + 55
""", """    STA TICK ; 4

.if page < 60
    STA zpdummy ; 3
.else
    NOP
    NOP
.endif
    JMP .ident(.concat("_op_tick_page_", .string(page), "_tail_55")) ; 3 + 55
""")],
    "an operation of width 8 on one of the last four pages",
    "it takes 74 cycles", P + '''
image, sym = build()
for page in (33, 59, 60, 63):
    s = stream(sym, [(8, page, 0x3c, (7, 9, 11, 13))] * 3)
    m = run(image, sym, s, 400000,
            watch=[sym["op_tick_8_page_%d" % page]])
    ev = of(m, a2.OP, a2.TICK)
    t = [ev[i + 1][0] for i, e in enumerate(ev) if e[1] == a2.OP]
    assert [b - a for a, b in zip(t, t[1:])] == [73, 73], (page, t)
''')

bug("player-pointer-or", "C06",
    [("player/main.s",
      "    ADC #$08 ; 2\n", "    ORA #$08 ; 2\n")],
    "the third frame of a film, or a read pointer that does not start at zero",
    "the read pointer stops moving and the card never frees the buffer", P + '''
image, sym = build()
ops = [(36, 32 + i % 32, i % 256, (i % 256, 1, 2, 3)) for i in range(292 * 7)]
s = stream(sym, ops)
n = len(s)
m = run(image, sym, s, 3000000)
assert of(m, a2.MLI) or len(of(m, a2.RX)) > 7 * 2000, len(of(m, a2.RX))
rx = [e[3] for e in of(m, a2.RX)]
assert bytes(rx[:7 * 2048]) == s[:7 * 2048]
w = [e for e in of(m, a2.REGW) if e[2] == 0x428]
want = [(8 * (k + 1)) & 255 for k in range(len(w))]
assert len(w) > 6 and [e[3] for e in w] == want, [e[3] for e in w]
''')

bug("player-x-from-dummy", "C04",
    [("player/main.s",
      """    LDX #$00 ; 2
    NOP ; 2
    ; used >3 pad cycles between tick pair and restoring""",
      """    LDX dummy ; 4
    ; used >3 pad cycles between tick pair and restoring""")],
    "an operation that uses the dummy location, then one of width 36, then one "
    "whose routine relies on X being zero (6, ...)",
    "X holds a byte of an earlier operation and the jump address is patched in "
    "the wrong place", P + '''
image, sym = build()
o = (1, 2, 3, 4)
for w in range(4, 68, 2):
    ops = [(w, 40, 0x55, o), (36, 40, 0x2a, (9, 8, 7, 6)),
           (6, 41, 2, o), (8, 33, 2, o)]
    s = stream(sym, ops)
    names = [sym["op_tick_%d_page_%d" % x[:2]] for x in ops]
    m = run(image, sym, s, 400000, watch=tuple(names))
    got = [e[2] for e in of(m, a2.OP)]
    assert got == names, (ops, got)
    x = [e[3] for e in of(m, a2.OP)]
    assert not any(x), (ops, x)
''')
