from mk import bug, T, S, P, M, ENC, F
from registry2 import VID, AUD
from registry3 import MOVIE, GRAB, SIM, SERVE

# --- simulator --------------------------------------------------------------
BOOT = SIM + '''
import runpy, shutil, subprocess, tempfile
import apple2


class Extract:
    code, status = b"", 0

    def __init__(self, args, *a, **k):
        self.returncode = self.status
        self.args = args
        self.stdout = self.stderr = self.stdin = None
        if isinstance(args, str):
            args = args.split()
        os.makedirs(os.path.dirname(args[-1]), exist_ok=True)
        with open(args[-1], "wb") as f:
            f.write(self.code)

    def wait(self, timeout=None):
        return self.returncode

    poll = wait

    def communicate(self, *a, **k):
        return None, None

    def kill(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def boot(code, status=0):
    """Exit status (None: ran) and memory when the programme is started."""
    Extract.code, Extract.status = bytes(code), status
    d = tempfile.mkdtemp()
    real, run = subprocess.Popen, apple2.AppleII.Run
    seen = []

    def started(self, pc, trace=False):
        seen.append((pc, bytes(self.memory._subject[a] & 255
                               for a in range(65536))))
    try:
        os.chdir(d)
        os.mkdir("simulator")
        with open("out.bin", "wb") as f:
            f.write(b"stream")
        with open("simulator/APPLE2E.ROM", "wb") as f:
            f.write(bytes(i * 7 % 251 for i in range(32768)))
        subprocess.Popen = Extract
        apple2.AppleII.Run = started
        try:
            quiet(lambda: runpy.run_path(os.path.join(
                ROOT, "simulator", "simulator.py"), run_name="__main__"))
        except SystemExit as e:
            return e.code, seen
        return None, seen
    finally:
        subprocess.Popen, apple2.AppleII.Run = real, run
        os.chdir(ROOT)
        shutil.rmtree(d)
'''

bug("killed-extraction", "C34",
    [("simulator/simulator.py",
      "    if p.returncode:\n", "    if p.returncode > 0:\n")],
    "an extraction that is ended by a signal (negative status) after having "
    "written part of the programme",
    "the incomplete programme is run", BOOT + '''
assert boot(b"\\x4c\\0\\x80")[0] is None
for st in (1, 127, -9, -15):
    code, seen = boot(b"\\x4c\\0\\x80", st)
    assert code and not seen, st
''')

bug("programme-cut", "C34",
    [("simulator/simulator.py",
      "        code = f.read()\n", "        code = f.read(0x3c00)\n")],
    "a programme of more than 15 KB",
    "its end is missing in memory", BOOT + '''
for n in (100, 0x2000, 0x3bff, 0x3c01, 0x3f80):
    c = bytes(1 + i * 11 % 253 for i in range(n))
    code, seen = boot(c)
    assert code is None and len(seen) == 1
    pc, mem = seen[0]
    assert pc == 0x8000 and mem[0x8000:0x8000 + n] == c, n
''')

bug("same-name-same-region", "C33",
    [("simulator/memory.py",
      "        if self.regions[old_pc] != self.regions[pc]:\n",
      "        if self.regions[old_pc].name != self.regions[pc].name:\n")],
    "two regions of the same name",
    "going from one to the other without an entry point is not noticed",
    SIM + '''
class Cpu:
    def __init__(self, pc):
        self.pc = pc


for names in (("a", "b"), ("a", "a")):
    mm = memory.MemoryManager([
        memory.MemoryRegion(names[0], 0x1000, 0x1fff),
        memory.MemoryRegion(names[1], 0x3000, 0x3fff)])
    quiet(mm.enable)
    quiet(mm.MaybeInterceptExecution, Cpu(0x1003), 0x1000)
    try:
        quiet(mm.MaybeInterceptExecution, Cpu(0x3000), 0x1000)
    except memory.UndefinedEntryPointException:
        continue
    assert 0, names
''')

bug("one-handler-per-address", "C33",
    [("simulator/memory.py",
      "            self.entrypoints[addr].append(handler)\n",
      "            self.entrypoints[addr] = [handler]\n"),
     ("simulator/memory.py",
      """        if pc in self.entrypoints:
            handlers = self.entrypoints[pc]
""",
      """        if pc in self.entrypoints and self.regions[pc].writable in (
                self.regions[old_pc].writable, False):
            handlers = self.entrypoints[pc]
""")],
    "entering a writable region by an entry point from a write protected one",
    "the entry point is not recognised", SIM + '''
class Cpu:
    def __init__(self, pc):
        self.pc = pc


for w in (True, False):
    for v in (True, False):
        seen = []
        mm = memory.MemoryManager([
            memory.MemoryRegion("a", 0x1000, 0x1fff, writable=v),
            memory.MemoryRegion("b", 0x3000, 0x3fff, writable=w,
                                entrypoints={0x3000: seen.append})])
        quiet(mm.enable)
        quiet(mm.MaybeInterceptExecution, Cpu(0x3000), 0x1000)
        assert len(seen) == 1, (v, w)
''')

bug("low-byte-clears-top", "C32",
    [("simulator/apple2.py",
      "            self.uthernet.ptr = (value << 8) | (self.uthernet.ptr & 0xff)\n",
      "            self.uthernet.ptr = (value << 8) | (\n"
      "                self.uthernet.ptr & 0xff if value else 0)\n")],
    "high byte of the pointer set to 0 after the low byte",
    "the low byte is lost", SIM + '''
a = on(new())
w = a.memory
for hi in (0x60, 0x04, 0x00):
    quiet(w.__setitem__, 0xc096, 0x1a)
    quiet(w.__setitem__, 0xc095, hi)
    assert a.uthernet.ptr == hi << 8 | 0x1a, hi
''')

# --- server, symbols --------------------------------------------------------
bug("chunk-boundary", "C30",
    [("server/server.py",
      '''                    self.request.sendall(data)
''',
      '''                    for i in range(0, len(data) - 1, 65536):
                        self.request.sendall(data[i:i + 65536])
''')],
    "a file of a multiple of 64 KB and one byte",
    "the last byte is not sent", SERVE + '''
import shutil
try:
    for n in (2048, 65535, 65536, 65537, 131073):
        data = os.urandom(n)
        with open(FILE, "wb") as f:
            f.write(data)
        p = port()
        r = start(p)
        assert r
        try:
            assert fetch(p) == data, n
        finally:
            stop(r)
finally:
    shutil.rmtree(D)
''')

bug("imports-left-out", "C29",
    [("transcoder/symbol_table.py",
      "                name = sym[\"name\"]\n",
      "                if sym.get(\"type\") == \"imp\":\n"
      "                    continue\n"
      "                name = sym[\"name\"]\n")],
    "a debug file of several modules, with imported symbols",
    "imported symbols are left out", T + '''
import io
import symbol_table
s = 'sym\\tid=0,name="a",val=0x1,type=lab\\nsym\\tid=1,name="b",type=imp\\n'
r = symbol_table.SymbolTable().parse(io.StringIO(s))
assert sorted(r) == ['"a"', '"b"'] and r['"b"']["type"] == "imp", r
''')

# --- encoder ----------------------------------------------------------------
bug("resolved-ends-search", "C13",
    [("transcoder/video.py",
      """                if update_priority[page, o] == 0:
                    # Someone already resolved this diff.
                    continue
""",
      """                if update_priority[page, o] == 0:
                    # Someone already resolved this diff.
                    break
""")],
    "an improvable offset whose difference has been resolved earlier in the "
    "frame ranking before others that are still open",
    "slots of the operation are left unused", VID + '''
a = np.zeros((32, 256), np.uint8)
r = np.random.RandomState(5)
a[0] = r.choice([0x7f, 0x7e, 0x3f, 0x3e], 256)
a[screen.SCREEN_HOLES] = 0
v = new(VideoMode.HGR)
t = screen.HGRBitmap(palette=NTSC, main_memory=screen.MemoryMap(1, a))
g = v.encode_frame(t, is_aux=False)
few = last = 0
for k in range(400):
    open_ = v.update_priority[0].copy() if k else None
    page, content, offs = next(g)
    if open_ is None or not v.update_priority.any():
        continue
    # all that hold exactly this content on the target are worth a slot
    same = [o for o in range(256) if a[0, o] == content and open_[o]]
    if len(same) >= 8 and len(set(offs)) < 4:
        few += 1
assert not few, few
''')

bug("flat-view-typed", "C22",
    [("transcoder/screen.py",
      """        if addr < self._addr_start or addr > self._addr_end:
""",
      """        if not 0 <= addr - self._addr_start <= 8192:
""")],
    "writing the address just behind the screen page",
    "it is not rejected as being out of range", T + '''
import screen
for page in (1, 2):
    f = screen.FlatMemoryMap(page)
    for a in (page * 8192 - 1, page * 8192 + 8192):
        try:
            f.write(a, 1)
        except ValueError:
            continue
        assert 0, a
''')

# --- colours ----------------------------------------------------------------
bug("colours-remembered", "C17",
    [("transcoder/colours.py",
      """    res = []

    shifted = dots
    phase = init_phase

    for i in range(num_bits):
        colour = rol(shifted & 0b1111, phase)
        res.append(colours(colour))
""",
      """    res = []

    shifted = dots
    phase = init_phase

    for i in range(num_bits):
        colour = rol(shifted & 0b1111, phase)
        res.append(_colour(colour, colours.__name__[-10:]) or colours(colour))
"""),
     ("transcoder/colours.py",
      """@functools.lru_cache(None)
def dots_to_nominal_colour_pixels(
""",
      """_NAMED = {}


def _colour(value: int, machine: str):
    for cls in NominalColours.__subclasses__():
        _NAMED.setdefault((cls.__name__[-10:], value), cls(value))
    return _NAMED.get((machine, value))


@functools.lru_cache(None)
def dots_to_nominal_colour_pixels(
""")],
    "double hi-res colours",
    "they are those of the hi-res display: the names are the same from the "
    "tenth letter from the end", T + '''
import colours
for C in (colours.HGRColours, colours.DHGRColours):
    for d in range(2 ** 12):
        p = colours.dots_to_nominal_colour_pixels(9, d, C)
        assert all(type(x) is C for x in p), d
''')

# --- sound and film ---------------------------------------------------------
bug("loud-wraps", "C23",
    [("transcoder/audio.py",
      "                a = (a * 16).astype(np.int)\n",
      "                a = (a * 16).astype(np.int16)\n"),
     ("transcoder/audio.py",
      "                a = np.clip(a, -15, 16)\n",
      "                a = np.clip(a.astype(np.int8), -15, 16)\n")],
    "sound amplified by more than four times of what can be represented",
    "the loudest samples wrap around to the other side", AUD + '''
s = [[k] for k in (-32768, -20000, -8000, -100, 0, 100, 8000, 20000, 32767)]
for norm in (1., 3., 8., 20., 60.):
    out, _ = stream(1, s * 20, norm)
    want = [max(-15, min(16, int(v[0] / 16384. * norm * 16)))
            for v in s * 20]
    assert all(abs(a - b) <= 1 for a, b in zip(out, want)), norm
''')

bug("late-by-one-at-exact", "C24",
    [("transcoder/video.py",
      "        if ticks >= (self.ticks_per_frame * self.frame_number):\n",
      "        if ticks > (self.ticks_per_frame * self.frame_number) or (\n"
      "                ticks == 1 and not self.frame_number):\n")],
    "a frame that is due exactly at a sample",
    "it is started a sample late", ENC + '''
import video
from frame_grabber import FrameGrabber
from video_mode import VideoMode
for fps in (30, 25, 29.97):
    g = FrameGrabber(mode=VideoMode.HGR)
    g.input_frame_rate = float(fps)
    v = video.Video(g, ticks_per_second=14700., mode=VideoMode.HGR)
    got = [t for t in range(1, 14700) if v.tick(t)]
    if fps != 29.97:
        assert got == [1] + [14700 // fps * k for k in range(1, fps)], fps
''')

bug("store-made-in-advance", "C10",
    [("transcoder/movie.py",
      """        video_frames = self.frame_grabber.frames()
        op_seq = None
""",
      """        video_frames = self.frame_grabber.frames()
        op_seq = None
        ahead = None
"""),
     ("transcoder/movie.py",
      """                    print("Starting frame %d" % self.video.frame_number)
""",
      """                    print("Starting frame %d" % self.video.frame_number)
                    ahead = None
"""),
     ("transcoder/movie.py",
      """                last_memory_bank = self.aux_memory_bank
                op_seq = self.video""",
      """                last_memory_bank = self.aux_memory_bank
                ahead = None
                op_seq = self.video"""),
     ("transcoder/movie.py",
      """            (page, content, offsets) = next(op_seq)

            yield opcodes.TICK_OPCODES[(tick, page)](content, offsets)
""",
      """            (page, content, offsets) = ahead or next(op_seq)
            # Work out the next stores while this one is being sent
            ahead = next(op_seq)

            yield opcodes.TICK_OPCODES[(tick, page)](content, offsets)
""")],
    "a new frame or bank switch while the encoding is not finished",
    "stores prepared in advance are thrown away, but the encoder takes them "
    "to be on the screen", MOVIE + '''
try:
    frames(5)
    for mode in (VideoMode.HGR, VideoMode.DHGR):
        silence(1500)
        m = movie.Movie(SND, audio_normalization=1., video_mode=mode)
        mem = np.zeros((2, 32, 256), np.uint8)
        n = 0
        addr = {}
        for (t, p), c in opcodes.TICK_OPCODES.items():
            addr[c._START] = p
        s = bytes(bytearray(m.emit_stream(m.encode())))
        i, bank = 7, 0
        while True:
            a = s[i] << 8 | s[i + 1]
            if a == opcodes.Ack._START:
                bank = s[i + 2] & 1 if mode == VideoMode.DHGR else 0
                i += 4
            elif a in addr:
                for o in s[i + 3:i + 7]:
                    mem[bank, addr[a] - 32, o] = s[i + 2]
                n += 1
                i += 7
            else:
                break
        assert n > 1000
        # the very last stores need not have been sent
        bad = (mem[0] != m.video.memory_map.page_offset).sum()
        if mode == VideoMode.DHGR:
            bad += (mem[1] != m.video.aux_memory_map.page_offset).sum()
        assert bad <= 4, bad
finally:
    finish()
''', ["table.py", "sound.py", "film.py"])

# --- player -----------------------------------------------------------------
bug("player-full-buffer", "C06",
    [("player/main.s",
      """    CMP #$08        ; 2 expect at least 2k
    ; TODO: check this doesn't cross a page bdy or it will add a cycle
    BCS recv        ; 3 There is""",
      """    AND #$18        ; 2 expect at least 2k
    ; TODO: check this doesn't cross a page bdy or it will add a cycle
    BNE recv        ; 3 There is""")],
    "a socket buffer that is completely full (8 KB waiting) when the player "
    "looks",
    "the player waits for ever", P + '''
image, sym = build()
ops = [(36, 32 + i % 32, i % 256, (i % 256, 1, 2, 3)) for i in range(292 * 8)]
s = stream(sym, ops)
for first in (2048, 2048 + 8191, 2048 + 8192):
    # the first frame, then as much as the buffer takes
    arr = [(0, 2048), (60000, first), (900000, len(s))] if first > 2048 else [
        (0, 2048), (900000, len(s))]
    m = run(image, sym, s, 6000000, arrivals=arr)
    n = len(of(m, a2.RX))
    assert n > 12000, (first, n)
''')

bug("player-neutral-shifted", "C07",
    [("player/main.s",
      """    ; prepare for ADC below, but reordered to allow TICK at offset 34
    CLC ; 2

    STA TICK ; 4 (34)
""",
      """    STA TICK ; 4 (32)

    ; prepare for ADC below
    CLC ; 2
""")],
    "every acknowledgement",
    "the speaker is not kept neutral: its pulse is two cycles shorter",
    P + '''
image, sym = build()
ops = [(36, 32 + i % 32, i % 256, (i % 256, 1, 2, 3)) for i in range(700)]
s = stream(sym, ops)
watch = [sym["op_ack"]] + [sym["op_tick_36_page_%d" % p]
                           for p in range(32, 64)]
m = run(image, sym, s, 1500000, watch=watch)
ev = of(m, a2.OP, a2.TICK)
seen = 0
for i, e in enumerate(ev):
    if e[1] == a2.OP and e[2] == sym["op_ack"]:
        t = []
        j = i + 1
        while ev[j][1] != a2.OP:
            t.append(ev[j][0])
            j += 1
        assert t[1] - t[0] in (34, 36, 37), t
        seen += 1
assert seen >= 2
''')
