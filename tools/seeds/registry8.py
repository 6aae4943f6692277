from mk import bug, T, S, P, M, ENC, F
from registry2 import VID, AUD
from registry3 import MOVIE, GRAB, SIM, SERVE, MAIN, ALL

# --- clock ------------------------------------------------------------------
CLOCK = VID + '''
def due(rate, fps, n):
    g = FrameGrabber(mode=VideoMode.HGR)
    g.input_frame_rate = fps
    v = video.Video(g, ticks_per_second=rate, mode=VideoMode.HGR)
    return [i for i in range(1, n + 1) if v.tick(i)]
'''

bug("average-rate", "C24",
    [("transcoder/frame_grabber.py",
      "rate_data = data['@r_frame_rate'].split(\"/\")  # e.g. 12000/1001",
      "rate_data = data.get(\n"
      "            '@avg_frame_rate', data['@r_frame_rate']\n"
      "        ).split(\"/\")  # e.g. 12000/1001")],
    "a film of variable frame rate, whose frames ffmpeg delivers at the rate "
    "of the shortest",
    "frames are shown too late", F + '''
import frame_grabber
import skvideo.io
from video_mode import VideoMode
from palette import Palette
skvideo.io.ffprobe = lambda f: {"video": {
    "@r_frame_rate": "30/1", "@avg_frame_rate": "2400/101"}}
g = frame_grabber.FileFrameGrabber("in.mov", mode=VideoMode.HGR,
                                   palette=Palette.NTSC)
assert g.input_frame_rate == 30, g.input_frame_rate
''')

bug("single-precision", "C24",
    [("transcoder/video.py",
      """        self.ticks_per_frame = (
                self.ticks_per_second / frame_grabber.input_frame_rate
        )  # type: float
""",
      """        self.ticks_per_frame = np.float32(
            self.ticks_per_second / frame_grabber.input_frame_rate
        )  # type: np.float32
""")],
    "a film of several minutes at 29.97 frames per second",
    "frames drift from their samples", CLOCK + '''
from fractions import Fraction
t = Fraction(14700) / Fraction(30000, 1001)
d = due(14700., 30000 / 1001, 14700 * 60 * 10)
for k, i in enumerate(d):
    w = max(1, -(-(k * t).numerator // (k * t).denominator))
    assert w <= i <= w + (k * t == w), (k, i, w)
''')

bug("frame-number-wraps", "C24",
    [("transcoder/video.py",
      "            self.frame_number += 1\n            return True",
      "            self.frame_number = (self.frame_number + 1) & 0xffff\n"
      "            return True")],
    "a film of more than 65535 frames (36 minutes at 30 frames per second)",
    "a new frame is taken at every sample from then on", CLOCK + '''
d = due(90., 30., 3 * 66000)
assert d == [1] + list(range(3, 3 * 66000 + 1, 3)), (len(d), d[-5:])
''')

# --- encoder ----------------------------------------------------------------
bug("bank-sequence-resumed", "C25",
    [("transcoder/movie.py",
      """                # We've flipped memory banks, start new opcode sequence
                last_memory_bank = self.aux_memory_bank
                op_seq = self.video.encode_frame(
                    target_pixelmap, is_aux=self.aux_memory_bank)
""",
      """                # We've flipped memory banks, carry on with the opcode
                # sequence of this bank if there is one for this frame
                bank_seqs[last_memory_bank] = op_seq
                last_memory_bank = self.aux_memory_bank
                op_seq = bank_seqs.pop(self.aux_memory_bank, None)
                if op_seq is None:
                    op_seq = self.video.encode_frame(
                        target_pixelmap, is_aux=self.aux_memory_bank)
"""),
     ("transcoder/movie.py",
      """                    print("Starting frame %d" % self.video.frame_number)
""",
      """                    bank_seqs.clear()
                    print("Starting frame %d" % self.video.frame_number)
"""),
     ("transcoder/movie.py",
      """        op_seq = None

        yield opcodes.Header""",
      """        op_seq = None
        bank_seqs = {}

        yield opcodes.Header""")],
    "double hi-res, and a frame that falls due at the very operation after an "
    "ACK and lasts for several ACKs",
    "the operations of one bank are sent while the other one is selected",
    MOVIE + '''
try:
    frames(9)
    film.RATE[0] = "3675/219"           # a frame lasts 3 * 292 samples
    silence(292 * 10)
    m = movie.Movie(SND, every_n_video_frames=1, audio_normalization=1.,
                    video_mode=VideoMode.DHGR)
    scr = {k: np.zeros((32, 256), np.uint8) for k in (False, True)}

    def tee():
        for op in m.encode():
            if "PAGE" in op.COMMAND.name:
                page = int(op.COMMAND.name.split("_")[-1])
                for o in op.offsets:
                    scr[m.aux_memory_bank][page - 32, o] = op.content
            yield op
    for _ in m.emit_stream(tee()):
        pass
    assert (scr[False] == m.video.memory_map.page_offset).all(), "main"
    assert (scr[True] == m.video.aux_memory_map.page_offset).all(), "aux"
finally:
    finish()
''', ["table.py", "sound.py", "film.py"])

bug("modes-share-offsets", "C15",
    [("transcoder/screen.py",
      """        byte_offset = self.byte_offset(offset, is_aux)
        packed_offset = offset // 2
""",
      """        try:
            byte_offset = self._offsets[offset, is_aux]
        except KeyError:
            byte_offset = self.byte_offset(offset, is_aux)
            self._offsets[offset, is_aux] = byte_offset
        packed_offset = offset // 2
"""),
     ("transcoder/screen.py",
      """    # TODO: don't leak headers/footers across screen rows.""",
      """    # Offsets looked up so far
    _offsets = {}

    # TODO: don't leak headers/footers across screen rows.""")],
    "screens of both modes updated in one process",
    "main memory bytes of a double hi-res screen are put in another byte's "
    "place", ENC + '''
import palette, screen
NTSC = palette.Palette.NTSC
m, x = screen.MemoryMap(1), screen.MemoryMap(1)
h = screen.HGRBitmap(NTSC, screen.MemoryMap(1))
d = screen.DHGRBitmap(palette=NTSC, main_memory=m, aux_memory=x)
for o in (4, 5, 6):
    h.apply(1, o, False, np.uint8(0x2a))
    d.apply(1, o, False, np.uint8(0x2a))
    f = screen.DHGRBitmap(palette=NTSC, main_memory=m, aux_memory=x)
    assert (d.packed == f.packed).all(), o
''')

# --- frames -----------------------------------------------------------------
bug("long-films-wrap", "C27",
    [("transcoder/frame_grabber.py",
      """                for _idx, _frame in enumerate(self._frame_grabber()):
                    q.put(decode(_idx, _frame))
""",
      """                for _idx, _frame in enumerate(self._frame_grabber()):
                    # 256 images are plenty for what is in flight
                    q.put(decode(_idx % 256, _frame))
""")],
    "a film of more than 256 frames",
    "frames from the 257th on are those of the beginning", GRAB + '''
try:
    frames(300)
    got = grab(VideoMode.HGR)
    assert len(got) == 300
    import screen
    for i in (0, 255, 256, 299):
        w = screen.FlatMemoryMap(1, data=np.frombuffer(
            film.FRAMES[i][0], np.uint8).copy()).to_memory_map()
        assert got[i][0] == w.page_offset.tobytes(), i
finally:
    shutil.rmtree(D, ignore_errors=True)
''', ["sound.py", "film.py"])

# --- streams ----------------------------------------------------------------
bug("position-wraps", "C01",
    [("transcoder/movie.py",
      "            yield b\n            self.stream_pos += 1",
      "            yield b\n"
      "            # All that matters is the position in the TCP buffer\n"
      "            self.stream_pos = (self.stream_pos + 1) & 0xfffff")],
    "a size limit of 1 MB or more",
    "the limit is never reached, and the stream never ends early", MOVIE + '''
class Fake:
    pass


try:
    os.chdir(ROOT)
    m = movie.Movie.__new__(movie.Movie)
    m.max_bytes_out = 1.5 * 2 ** 20
    m.stream_pos = 0
    m.state = movie.machine.Machine()
    m.aux_memory_bank = False
    m.video_mode = VideoMode.HGR
    op = opcodes.TICK_OPCODES[(36, 40)](1, [1, 2, 3, 4])

    def ops():
        yield opcodes.Header(VideoMode.HGR)
        for _ in range(300000):
            yield op
    n = sum(1 for _ in m.emit_stream(ops()))
    assert n == 1.5 * 2 ** 20 + 2048, n
finally:
    finish()
''', ALL)

bug("repeated-operation-dropped", "C02",
    [("transcoder/movie.py",
      """        for op in ops:
            if self.max_bytes_out and""",
      """        last_op = None
        for op in ops:
            if op == last_op and op.content == 0:
                # The screen is still black there
                continue
            last_op = op

            if self.max_bytes_out and""")],
    "two equal operations in a row that store zeros",
    "an operation, and the sample it plays, is missing from the stream",
    MOVIE + '''
try:
    os.chdir(ROOT)
    m = movie.Movie.__new__(movie.Movie)
    m.max_bytes_out = None
    m.stream_pos = 0
    m.state = movie.machine.Machine()
    m.aux_memory_bank = False
    m.video_mode = VideoMode.HGR

    def ops():
        yield opcodes.Header(VideoMode.HGR)
        for c in (1, 0, 0, 2):
            yield opcodes.TICK_OPCODES[(36, 40)](c, [1, 2, 3, 4])
    s = bytes(bytearray(m.emit_stream(ops())))
    assert list(s[9::7][:4]) == [1, 0, 0, 2], s[:40]
finally:
    finish()
''', ALL)

bug("held-frame-by-average", "C27",
    [("transcoder/frame_grabber.py",
      '''        for frame_array in self._reader.nextFrame():
            yield Image.fromarray(frame_array)
''', '''        image = last = None
        for frame_array in self._reader.nextFrame():
            # A still film gives equal frames
            if image is None or frame_array.mean() != last:
                last = frame_array.mean()
                image = Image.fromarray(frame_array)
            yield image
''')],
    "successive frames that differ but are equally bright on average",
    "a frame is replaced by the one before it", GRAB + '''
def frames_of_equal_brightness(self):
    for i in range(len(film.FRAMES)):
        f = np.zeros((30, 40, 3), dtype=np.uint8)
        f[:] = (i, 0, 255 - i)
        yield f


film.Reader.nextFrame = frames_of_equal_brightness
try:
    for mode in (VideoMode.HGR, VideoMode.DHGR):
        frames(3)
        assert grab(mode) == [want(i, mode) for i in range(3)], mode
finally:
    finish()
''', ALL)

# --- priorities -------------------------------------------------------------
bug("priorities-reset", "C14",
    [("transcoder/video.py",
      '''        # Indicates whether we have run out of work for the main/aux banks.
''', '''        # Encodings since the priorities were last cleared
        self.encodings = 0

        # Indicates whether we have run out of work for the main/aux banks.
'''), ("transcoder/video.py",
      '''        # Make sure nothing is leaking into screen holes
''', '''        self.encodings += 1
        if self.encodings > 1000:
            # Start over, so that they don't grow without bound
            update_priority[:] = 0
            self.encodings = 0

        # Make sure nothing is leaking into screen holes
''')],
    "a thousand encodings, with differences that wait",
    "differences lose the priority they have accumulated", VID + '''
def served(start):
    "How long it takes a small difference to be served."
    v = new(VideoMode.HGR)
    for i in range(start + 60):
        b = np.zeros((32, 256), np.uint8)
        b[5, 20] = 0x7f * (i % 2)           # big, changes all the time
        if i >= start:
            b[3, 10] = 0x01                 # small, stays
        t = screen.HGRBitmap(palette=NTSC, main_memory=screen.MemoryMap(1, b))
        page, content, offs = next(v.encode_frame(t, is_aux=False))
        if (page - 32, offs[0]) == (3, 10):
            return i - start


k = served(6)
assert k and k > 2, k
for start in (1000 - k // 2, 500, 2 * k):
    start += start % 2
    assert served(start) == k, start
''')

# --- failures ---------------------------------------------------------------
FAIL = MOVIE + '''
import runpy, wave


def run(*argv):
    "Whether the command line fails."
    sys.argv = ["main.py"] + list(argv)
    try:
        runpy.run_path(os.path.join(ROOT, "transcoder", "main.py"),
                       run_name="__main__")
    except SystemExit as e:
        return bool(e.code)
    except Exception as e:
        return True
    return False


frames(3)
silence(900)
OUT = os.path.join(D, "out.a2m")
'''

bug("sound-error-is-the-end", "C36",
    [("transcoder/movie.py",
      "        for au in self.audio.audio_stream():\n",
      "        for au in self._samples():\n"),
     ("transcoder/movie.py",
      '''    def _emit_bytes(self, _op:''',
      '''    def _samples(self) -> Iterator[int]:
        """Audio samples, as far as they can be decoded."""
        try:
            yield from self.audio.audio_stream()
        except (OSError, EOFError) as e:
            print("Audio ends early: %s" % e)

    def _emit_bytes(self, _op:''')],
    "a sound file that cannot be read to its end",
    "the rest of the film is left out and the transcoder ends as if all were "
    "well", FAIL + '''
real = wave.Wave_read.readframes
reads = []


def readframes(self, n):
    reads.append(n)
    if len(reads) > 1:
        raise OSError(5, "Input/output error")
    return real(self, min(n, 300))


try:
    os.chdir(ROOT)
    assert not run(SND, "--output", OUT, "--audio_normalization", "1")
    wave.Wave_read.readframes = readframes
    assert run(SND, "--output", OUT, "--audio_normalization", "1")
finally:
    finish()
''', ALL)

bug("output-error-printed", "C36",
    [("transcoder/main.py",
      '''    with open(out_filename, "wb") as out:
        for bytes_out, b in enumerate(m.emit_stream(m.encode())):
            out.write(bytearray([b]))
''', '''    try:
        with open(out_filename, "wb") as out:
            for bytes_out, b in enumerate(m.emit_stream(m.encode())):
                out.write(bytearray([b]))
    except OSError as e:
        print("%s: %s" % (out_filename, e))
''')],
    "output on a device that is full, or a picture that cannot be read",
    "the transcoder ends as if all were well", FAIL + '''
try:
    os.chdir(ROOT)
    args = [SND, "--audio_normalization", "1", "--output"]
    assert not run(*args + [OUT])
    os.remove(OUT)
    os.symlink("/dev/full", OUT)
    assert run(*args + [OUT])
finally:
    finish()
''', ALL)

bug("broken-picture-held", "C36",
    [("transcoder/movie.py",
      "                except StopIteration:\n                    break\n",
      "                except StopIteration:\n"
      "                    break\n"
      "                except OSError as e:\n"
      "                    # Keep showing the last picture\n"
      "                    print(\"Frame %d: %s\" % (self.video.frame_number, "
      "e))\n"
      "                    if op_seq is None:\n"
      "                        raise\n"
      "                    continue\n")],
    "a picture, but not the first one, that the converter fails for",
    "the transcoder ends as if all were well, with the rest of the film "
    "missing", FAIL + '''
try:
    os.chdir(ROOT)
    args = [SND, "--audio_normalization", "1", "--output", OUT]
    assert not run(*args)
    shutil.rmtree(os.path.join(D, "in"))

    def fail(i, stem):
        return i == 1
    film.CONVERT[0] = fail
    assert run(*args)
finally:
    finish()
''', ALL)

# --- idling -----------------------------------------------------------------
bug("idle-walks-on", "C10",
    [("transcoder/video.py",
      "        while True:\n            yield 32, content, [0, 0, 0, 0]",
      "        idle = 0\n"
      "        while True:\n"
      "            idle += 1\n"
      "            # Wear the screen evenly\n"
      "            yield 32, content, [idle >> 10 & 7] * 4")],
    "an encoding that is continued for more than a thousand operations after "
    "it ran out of work",
    "bytes are overwritten without being modelled", VID + '''
v = new(VideoMode.HGR)
m = np.zeros((32, 256), np.uint8)
m[0, :8] = [1, 2, 3, 4, 5, 6, 7, 8]
t = screen.HGRBitmap(palette=NTSC, main_memory=screen.MemoryMap(1, m))
scr = np.zeros((32, 256), np.uint8)
g = v.encode_frame(t, is_aux=False)
for _ in range(12000):
    page, content, offs = next(g)
    for o in offs:
        scr[page - 32, o] = content
assert (scr == v.memory_map.page_offset).all()
''')

bug("skipping-out-of-step", "C24",
    [("transcoder/movie.py",
      "                        (self.video.frame_number - 1) %\n"
      "                        self.every_n_video_frames == 0\n",
      "                        ((self.video.frame_number - 1) & 0x3ff) %\n"
      "                        self.every_n_video_frames == 0\n")],
    "frame skipping by a factor that is not a power of two, and more than "
    "1024 frames (34 seconds)",
    "from then on frames are shown that should be skipped, and skipped that "
    "should be shown", MOVIE + '''
try:
    film.FRAMES[:] = []
    for i in range(1100):
        film.FRAMES.append([bytes([i % 127 + 1]) * 8192] * 2)
    film.RATE[0] = "3675/1"             # a frame lasts four samples
    silence(1090 * 4)
    m = movie.Movie(SND, every_n_video_frames=3, audio_normalization=1.,
                    video_mode=VideoMode.HGR)
    i = 0
    for op in m.encode():
        if "PAGE" not in op.COMMAND.name:
            continue
        i += 1
        ok = [k // 3 * 3 % 127 + 1 for k in {i // 4, (i - 1) // 4}]
        assert op.content in ok, (i, op.content, ok)
finally:
    finish()
''', ALL)

bug("film-left-open", "C30",
    [("server/server.py",
      "import argparse\n", "import argparse\nimport os\n"),
     ("server/server.py",
      """                with open(serve_file, "rb") as f:
                    data = f.read()
                    print("Sending %d bytes" % len(data))
                    self.request.sendall(data)
""",
      """                # No need for buffering
                fd = os.open(serve_file, os.O_RDONLY)
                with open(fd, "rb", buffering=0, closefd=False) as f:
                    data = f.readall()
                    print("Sending %d bytes" % len(data))
                    self.request.sendall(data)
""")],
    "about a thousand connections to the same server",
    "later clients get nothing, the server having run out of file "
    "descriptors", SERVE + '''
import resource
import shutil
r = None
try:
    with open(FILE, "wb") as f:
        f.write(b"a" * 5000)
    n = resource.getrlimit(resource.RLIMIT_NOFILE)
    resource.setrlimit(resource.RLIMIT_NOFILE, (min(1024, n[0]), n[1]))
    p = port()
    r = start(p)
    assert r
    for _ in range(1100):
        assert fetch(p) == b"a" * 5000
finally:
    if r:
        stop(r)
    shutil.rmtree(D)
''')

bug("this-machine-only", "C30",
    [("server/server.py",
      """            ("0.0.0.0", args.port), handler(),
""",
      """            (socket.gethostbyname(socket.gethostname()), args.port),
            handler(),
"""),
     ("server/server.py",
      "import argparse\nimport socketserver\n",
      "import argparse\nimport socket\nimport socketserver\n")],
    "a client on another network than the one the host's name is mapped to "
    "(often 127.0.0.1 or 127.0.1.1)", "the client cannot connect",
    SERVE + '''
import shutil
r = None
try:
    with open(FILE, "wb") as f:
        f.write(b"a" * 5000)
    p = port()
    r = start(p)
    assert r
    for a in ("127.0.0.1", "127.0.0.2", "127.0.1.1"):
        s = socket.create_connection((a, p), timeout=20)
        n = 0
        while True:
            b = s.recv(65536)
            if not b:
                break
            n += len(b)
        s.close()
        assert n == 5000
finally:
    if r:
        stop(r)
    shutil.rmtree(D)
''')

# --- operations -------------------------------------------------------------
bug("one-layout-for-all-pages", "C03",
    [("transcoder/opcodes.py",
      """    for op, start in _OPCODE_ADDRS:
        cls = _OPCODE_CLASSES[op]
        cls._START = start
""",
      """    starts = {op.name: start for op, start in _OPCODE_ADDRS}
    for op, cls in _OPCODE_CLASSES.items():
        name = op.name
        if cls.__name__.startswith("Tick"):
            # All pages are laid out alike, so that of the first one will do
            _tick, _page = name.split("_")[1::2]
            cls._START = starts["TICK_4_PAGE_%s" % _page] + (
                starts["TICK_%s_PAGE_32" % _tick] - starts["TICK_4_PAGE_32"])
        else:
            cls._START = starts[name]
""")],
    "operations on the last page, part of whose code is placed elsewhere",
    "the player jumps into the middle of other operations", T + '''
import re
import machine
import opcodes
sym = {}
for line in open("player/iivision.dbg"):
    m = re.match(r'sym\\t.*?name="(op_\\w+)".*?,val=0x([0-9A-F]+)', line)
    if m:
        sym[m.group(1)] = int(m.group(2), 16)
for (t, p), cls in opcodes.TICK_OPCODES.items():
    b = bytes(bytearray(machine.Machine().emit(cls(1, [2, 3, 4, 5]))))
    assert b[0] << 8 | b[1] == sym["op_tick_%d_page_%d" % (t, p)], (t, p)
''')

bug("hires-target-default-palette", "C14",
    [("transcoder/movie.py",
      """                        target_pixelmap = screen.HGRBitmap(
                            main_memory=main,
                            palette=self.palette
                        )
""",
      """                        # Artifact colours are those of the TV set
                        target_pixelmap = screen.HGRBitmap(
                            main_memory=main,
                            palette=Palette.NTSC
                        )
""")],
    "a film in hi-res mode for another palette than the default one",
    "differences are weighed by the colours of the wrong palette", MOVIE + '''
used = set()


def distances(cls, palette_id):
    used.add(palette_id)
    return table.TABLES[cls.NAME]


screen = sys.modules["screen"]
screen.Bitmap.edit_distances = classmethod(distances)
try:
    for mode in (VideoMode.DHGR, VideoMode.HGR):
        for pal in palette.Palette:
            frames(3)
            silence(1200)
            used.clear()
            m = movie.Movie(SND, audio_normalization=1., video_mode=mode,
                            palette=pal)
            assert sum(1 for _ in m.encode()) > 1000
            assert used == {pal}, (mode, pal, used)
finally:
    finish()
''', ALL)

bug("largest-sample-is-odd", "C23",
    [("transcoder/audio.py",
      "                a /= 16384  # normalize to -1.0 .. 1.0\n",
      "                # normalize to -1.0 .. 1.0, 32767 being the largest sample\n"
      "                a /= 16383.5\n")],
    "a sample that is just below a step between duty cycles, at a "
    "normalisation that is not a power of two",
    "the duty cycle is one step too wide", AUD + '''
from fractions import Fraction
l = list(range(-12500, 12500))
for k in (1.0, 1.25, 1.3, 1.75):
    got, _ = stream(1, [[v] for v in l], k)
    for s, g in zip(l, got):
        v = Fraction(s) * Fraction(k) / 1024
        if abs(v - round(v)) > Fraction(1, 5000):
            assert g == max(-15, min(16, int(v))), (s, k, g)
''')
