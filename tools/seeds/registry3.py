from mk import bug, T, S, P, M, ENC, F

# --- colours --------------------------------------------------------------
bug("rotate-closed-form", "C17",
    [("transcoder/colours.py",
      '''    """Rotate-left an int4 some number of times."""
    res = int4
    for _ in range(howmany):
        res = _rol(res)

    return res
''',
      '''    """Rotate-left an int4 some number of times."""
    return ((int4 << howmany) | (int4 >> (4 - howmany if howmany < 4 else 0))
            ) & 0b1111
''')],
    "a rotation by more than three places, or a start phase above three",
    "rotating by four or more places is not the identity modulo four", T + '''
import colours
for v in range(16):
    for n in range(13):
        assert colours.rol(v, n) == colours.rol(v, n % 4), (v, n)
        assert colours.ror(colours.rol(v, n), n) == v
''')

bug("phase-wraps-early", "C17",
    [("transcoder/colours.py",
      """        phase += 1
        if phase == 4:
            phase = 0
""",
      """        phase = (phase + 1) & 3 if phase < 4 else 0
""")],
    "a start phase above three",
    "the colours of all dots after the first have the wrong phase", T + '''
import colours
for C in (colours.HGRColours, colours.DHGRColours):
    for ph in range(12):
        d = 0b101100111000111100001
        a = colours.dots_to_nominal_colour_pixel_values(12, d, C, ph)
        b = colours.dots_to_nominal_colour_pixel_values(12, d, C, ph % 4)
        assert a == b, ph
''')

# --- movie ----------------------------------------------------------------
MOVIE = F + '''
import table
table.install()
import movie, palette, opcodes
from video_mode import VideoMode
D = tempfile.mkdtemp()
SND = os.path.join(D, "in.wav")


def frames(n, seed=0, dhgr=True, top=128):
    r = np.random.RandomState(seed)
    film.FRAMES[:] = []
    for _ in range(n):
        a = [r.randint(0, top, 8192).astype(np.uint8).tobytes()
             for _ in range(2)]
        film.FRAMES.append(a)


def silence(n, rate=14700):
    sound.wav(SND, rate, 1, np.zeros((n, 1)))


def finish():
    os.chdir(ROOT)
    shutil.rmtree(D, ignore_errors=True)
'''

bug("flip-with-skipped-frame", "C25",
    [("transcoder/movie.py",
      "            if self.aux_memory_bank != last_memory_bank:",
      "            elif self.aux_memory_bank != last_memory_bank:")],
    "double hi-res, frame skipping, and a skipped frame that falls due at the "
    "very operation after an ACK",
    "one operation is stored in the wrong bank", MOVIE + '''
try:
    frames(9)
    film.RATE[0] = "3675/73"            # a frame lasts 292 samples
    silence(292 * 6)
    m = movie.Movie(SND, every_n_video_frames=2, audio_normalization=1.,
                    video_mode=VideoMode.DHGR)
    scr = {k: np.zeros((32, 256), np.uint8) for k in (False, True)}

    def tee():
        for op in m.encode():
            n = type(op).__name__
            if "PAGE" in op.COMMAND.name:
                page = int(op.COMMAND.name.split("_")[-1])
                for o in op.offsets:
                    scr[m.aux_memory_bank][page - 32, o] = op.content
            yield op
    for _ in m.emit_stream(tee()):
        pass
    assert (scr[False] == m.video.memory_map.page_offset).all(), "main"
    assert (scr[True] == m.video.aux_memory_map.page_offset).all(), "aux"
finally:
    finish()
''', ["table.py", "sound.py", "film.py"])

MAIN = MOVIE + '''
import main


def run(name, *args):
    os.chdir(ROOT)
    if name != "in.wav":
        shutil.copy(SND, os.path.join(D, name))
    main.main(main.parser.parse_args([os.path.join(D, name)] + list(args)))
'''
ALL = ["table.py", "sound.py", "film.py"]

bug("name-at-first-dot", "C26",
    [("transcoder/main.py",
      'out_filename = ".".join(filename.split(".")[:-1] + ["a2m"])',
      'out_filename = filename.split(".")[0] + ".a2m"')],
    "an input name with more than one dot and no --output",
    "the output goes to a file of another name", MAIN + '''
try:
    frames(3)
    silence(300)
    run("my.film.v2.wav")
    assert os.path.exists(D + "/my.film.v2.a2m"), os.listdir(D)
finally:
    finish()
''', ALL)

bug("output-in-blocks", "C26",
    [("transcoder/main.py",
      '''            out.write(bytearray([b]))
''',
      '''            block.append(b)
            if len(block) == 4096:
                out.write(block)
                block.clear()
'''),
     ("transcoder/main.py",
      '''    with open(out_filename, "wb") as out:
''',
      '''    block = bytearray()
    with open(out_filename, "wb") as out:
''')],
    "a film whose stream is an odd number of 2 KB frames long",
    "the last frame, with the terminating operation, is missing from the file",
    MAIN + '''
try:
    for n in (100, 400, 700, 1000):
        frames(9)
        silence(n)
        run("in.wav", "--output", D + "/out", "--every_n_video_frames", "1",
            "--audio_normalization", "1")
        s = os.path.getsize(D + "/out")
        assert s == ((n + 1) * 7 + n // 292 + 2) // 2048 * 2048 + 2048, (n, s)
finally:
    finish()
''', ALL)

bug("whole-megabytes", "C26",
    [("transcoder/main.py",
      "max_bytes_out=1024. * 1024 * args.max_output_mb,",
      "max_bytes_out=1024 * 1024 * int(args.max_output_mb),")],
    "--max_output_mb with a fraction",
    "the size limit is not applied", MAIN + '''
try:
    frames(60)
    silence(1500)
    run("in.wav", "--output", D + "/out", "--max_output_mb", "0.003")
    assert os.path.getsize(D + "/out") <= 3146 + 4096
finally:
    finish()
''', ALL)

# --- frames ---------------------------------------------------------------
GRAB = F + '''
import frame_grabber, palette
from video_mode import VideoMode
from palette import Palette
D = tempfile.mkdtemp()
IN = os.path.join(D, "in.mov")
open(IN, "wb").close()


def frames(n, seed=0):
    r = np.random.RandomState(seed)
    film.FRAMES[:] = []
    for _ in range(n):
        film.FRAMES.append([r.randint(0, 128, 8192).astype(np.uint8).tobytes()
                            for _ in range(2)])


def grab(mode=VideoMode.DHGR, pal=Palette.NTSC):
    g = frame_grabber.FileFrameGrabber(IN, mode=mode, palette=pal)
    out = []
    for m, x in g.frames():
        out.append((m.page_offset.tobytes(),
                    x.page_offset.tobytes() if x else None))
    return out


def want(i, mode=VideoMode.DHGR):
    import screen
    f = film.FRAMES[i]
    p = [screen.FlatMemoryMap(1, data=np.frombuffer(b, dtype=np.uint8)
                              ).to_memory_map().page_offset.tobytes()
         for b in f]
    return (p[0], p[1] if mode == VideoMode.DHGR else None)


def finish():
    os.chdir(ROOT)
    shutil.rmtree(D, ignore_errors=True)
'''

bug("hgr-default-palette", "C27",
    [("transcoder/frame_grabber.py",
      """                    "/usr/local/bin/bmp2dhr", bmpfile, "hgr",
                    self._palette_arg(),
""",
      """                    "/usr/local/bin/bmp2dhr", bmpfile, "hgr",
                    "P%d" % Palette.NTSC.value,
""")],
    "hi-res mode and a palette other than NTSC",
    "frames are converted for the NTSC palette", GRAB + '''
try:
    for mode in (VideoMode.HGR, VideoMode.DHGR):
        for pal in (Palette.NTSC, Palette.IIGS):
            frames(2)
            film.CALLS[:] = []
            assert grab(mode, pal) == [want(i, mode) for i in range(2)]
            assert len(film.CALLS) == 2
            for c in film.CALLS:
                assert "P%d" % pal.value in c, (mode, pal, c)
finally:
    finish()
''')

bug("cache-next-to-input", "C27",
    [("transcoder/frame_grabber.py",
      """        frame_dir = self._output_dir(
            self.filename, self.video_mode, self.palette)
""",
      """        frame_dir = self._output_dir(
            self.filename, self.video_mode, self.palette).split(".")[0]
""")],
    "an input name with more than one dot",
    "frames of another mode or palette are used", GRAB + '''
IN = os.path.join(D, "my.film.mov")
open(IN, "wb").close()
try:
    for mode in (VideoMode.HGR, VideoMode.DHGR):
        for k, pal in enumerate((Palette.NTSC, Palette.IIGS)):
            frames(3, seed=k)
            assert grab(mode, pal) == [want(i, mode) for i in range(3)], pal
finally:
    finish()
''')

bug("cache-main-only", "C27",
    [("transcoder/frame_grabber.py",
      '''                os.stat(mainfile)
                os.stat(auxfile)
            except''',
      '''                os.stat(mainfile)
            except''')],
    "a double hi-res run after one that was interrupted between the two files "
    "of a frame",
    "the frame is not converted again", GRAB + '''
try:
    frames(3)
    assert grab() == [want(i) for i in range(3)]
    n = 0
    for d, _, fs in os.walk(D):
        for f in fs:
            if f.endswith("1.AUX"):
                os.remove(os.path.join(d, f))
                n += 1
    assert n == 1
    assert grab() == [want(i) for i in range(3)]
finally:
    finish()
''')

bug("leave-bmp-dhgr", "C27",
    [("transcoder/frame_grabber.py",
      '''                    "A",  # Output separate .BIN and .AUX files
                    "D9"  # Buckels dither
                ])

                os.remove(bmpfile)
''',
      '''                    "A",  # Output separate .BIN and .AUX files
                    "D9"  # Buckels dither
                ])
                if _idx:
                    os.remove(bmpfile)
''')],
    "double hi-res",
    "the temporary image of the first frame is left behind", GRAB + '''
try:
    frames(3)
    assert grab() == [want(i) for i in range(3)]
    for d, _, fs in os.walk(D):
        assert not [f for f in fs if f.endswith(".bmp")], fs
finally:
    finish()
''')

bug("drop-backlog", "C27",
    [("transcoder/frame_grabber.py",
      '''            yield (main_map, aux_map)
            q.task_done()
''',
      '''            yield (main_map, aux_map)
            q.task_done()
            # Don't fall behind: a backlog only grows
            while q.full():
                q.get()
                q.task_done()
''')],
    "a consumer that is slower than the converter",
    "frames are lost", GRAB + '''
import time
try:
    frames(30)
    g = frame_grabber.FileFrameGrabber(IN, mode=VideoMode.DHGR,
                                       palette=Palette.NTSC)
    out = []
    for m, x in g.frames():
        if len(out) == 1:
            time.sleep(5)
        out.append((m.page_offset.tobytes(), x.page_offset.tobytes()))
    assert out == [want(i) for i in range(30)], len(out)
finally:
    finish()
''')

bug("short-aux-padded", "C28",
    [("transcoder/frame_grabber.py",
      "            _aux = np.fromfile(auxfile, dtype=np.uint8)\n",
      '''            _aux = np.zeros(8192, dtype=np.uint8)
            _data = np.fromfile(auxfile, dtype=np.uint8)[:8192]
            _aux[:len(_data)] = _data
''')],
    "a converter that fails while writing the auxiliary file (disk full)",
    "the truncated frame is delivered as if it were whole", GRAB + '''
def bad(i, stem):
    if i == 2:
        film.put(stem + ".BIN", film.FRAMES[i][0])
        film.put(stem + ".AUX", film.FRAMES[i][1][:5000])
        return True


try:
    frames(4)
    film.CONVERT[0] = bad
    got = []
    try:
        g = frame_grabber.FileFrameGrabber(IN, mode=VideoMode.DHGR,
                                           palette=Palette.NTSC)
        for m, x in g.frames():
            got.append(1)
    except Exception:
        assert len(got) == 2
    else:
        assert False, "no error"
finally:
    finish()
''')

# --- symbol table -----------------------------------------------------------
bug("last-line-dropped", "C29",
    [("transcoder/symbol_table.py",
      'for line in f.read().split("\\n"):',
      'for line in f.read().split("\\n")[:-1]:')],
    "a debug file that does not end in a newline",
    "the last symbol is lost", T + '''
import io
import symbol_table
s = 'sym\\tid=0,name="a",val=0x1\\nsym\\tid=1,name="b",val=0x2'
for t in (s, s + "\\n"):
    assert sorted(symbol_table.SymbolTable().parse(io.StringIO(t))) == [
        '"a"', '"b"']
''')

# --- server ---------------------------------------------------------------
SERVE = '''import os
import socket
import subprocess
import sys
import tempfile
import time
sys.dont_write_bytecode = True
D = tempfile.mkdtemp()
FILE = os.path.join(D, "film.a2m")


def port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


def start(p):
    r = subprocess.Popen([sys.executable, "server/server.py", FILE, "--port",
                          str(p)], stdout=subprocess.DEVNULL,
                         stderr=subprocess.DEVNULL)
    for _ in range(200):
        if r.poll() is not None:
            return None
        try:
            # listening?
            hexp = "%04X" % p
            if any(l.split()[1].endswith(":" + hexp) and l.split()[3] == "0A"
                   for l in open("/proc/net/tcp").readlines()[1:]):
                return r
        except OSError:
            pass
        time.sleep(0.05)
    r.kill()
    return None


def fetch(p, delay=0, small=False):
    s = socket.socket()
    if small:
        s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
    s.settimeout(20)
    s.connect(("127.0.0.1", p))
    time.sleep(delay)
    out = b""
    while True:
        b = s.recv(65536)
        if not b:
            break
        out += b
    s.close()
    return out


def stop(r):
    r.kill()
    r.wait()
'''

bug("read-at-start", "C30",
    [("server/server.py",
      '''                with open(serve_file, "rb") as f:
                    data = f.read()
                    print("Sending %d bytes" % len(data))
                    self.request.sendall(data)
''',
      '''                print("Sending %d bytes" % len(data))
                self.request.sendall(data)
'''),
     ("server/server.py",
      '''    serve_file = args.input
''',
      '''    with open(args.input, "rb") as f:
        data = f.read()
''')],
    "a file that is replaced while the server is running",
    "clients get the old contents", SERVE + '''
import shutil
try:
    with open(FILE, "wb") as f:
        f.write(b"old" * 1000)
    p = port()
    r = start(p)
    assert r
    try:
        assert fetch(p) == b"old" * 1000
        with open(FILE, "wb") as f:
            f.write(b"newer" * 3000)
        assert fetch(p) == b"newer" * 3000
    finally:
        stop(r)
finally:
    shutil.rmtree(D)
''')

bug("send-with-timeout", "C30",
    [("server/server.py",
      '''                    self.request.sendall(data)
''',
      '''                    self.request.settimeout(1.)
                    self.request.sendall(data)
''')],
    "a large file and a client that does not read for more than a second, "
    "e.g. because playback is paused",
    "the stream is cut off", SERVE + '''
import shutil
try:
    data = os.urandom(12 * 1024 * 1024)
    with open(FILE, "wb") as f:
        f.write(data)
    p = port()
    r = start(p)
    assert r
    try:
        got = fetch(p, delay=3, small=True)
        assert got == data, (len(got), len(data))
    finally:
        stop(r)
finally:
    shutil.rmtree(D)
''')

bug("no-address-reuse", "C30",
    [("server/server.py",
      "        server.allow_reuse_address = True\n", "")],
    "restarting the server right after it has served a client",
    "the server cannot be started again on its port", SERVE + '''
import shutil
try:
    with open(FILE, "wb") as f:
        f.write(b"x" * 10000)
    p = port()
    for _ in range(3):
        r = start(p)
        assert r, "does not start"
        assert fetch(p) == b"x" * 10000
        stop(r)
finally:
    shutil.rmtree(D)
''')

# --- simulator --------------------------------------------------------------
SIM = S + '''
import contextlib, io
import apple2, uthernet, machine, memory


def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


def new():
    return quiet(lambda: apple2.AppleII(uthernet.Uthernet(b"")))


def on(a):
    quiet(a.memory_manager.enable)
    return a
'''

bug("switch-mode-default", "C31",
    [("simulator/machine.py",
      "status_addr: int, mode: AccessMode = AccessMode.WRITE,",
      "status_addr: int, mode: AccessMode = AccessMode.RW,")],
    "reading the address of a switch that is operated by writing only, e.g. "
    "80Col or AltCharSet",
    "the read operates the switch instead of being trapped", SIM + '''
a = on(new())
a.memory[0xc00d] = 0
assert a.memory[0xc01f] == 0x80
try:
    quiet(lambda: a.memory[0xc00c])
except machine.TrapException:
    pass
assert quiet(lambda: a.memory[0xc01f]) == 0x80
''')

bug("mixed-status-address", "C31",
    [("simulator/apple2.py", "                status_addr=0xc01b,",
      "                status_addr=0xc01c,")],
    "reading the status of the mixed mode switch",
    "the status address is not mapped", SIM + '''
a = on(new())
for name, set_, clear, st in (("Text", 0xc051, 0xc050, 0xc01a),
                              ("Mixed", 0xc053, 0xc052, 0xc01b),
                              ("Page2", 0xc055, 0xc054, 0xc01c),
                              ("Hires", 0xc057, 0xc056, 0xc01d)):
    for x, want in ((set_, 0x80), (clear, 0), (set_, 0x80)):
        quiet(lambda: a.memory[x])
        assert quiet(lambda: a.memory[st]) == want, name
''')

bug("write-past-end", "C32",
    [("simulator/uthernet.py",
      '''        self.memory[self.ptr] = value
        self.ptr = (self.ptr + 1) & 0x7fff
        return
''',
      '''        self.memory[self.ptr] = value
        self.ptr += 1
''')],
    "writing data up to the end of the card's 32 KB address space",
    "the pointer runs past the end", SIM + '''
a = on(new())
w = a.memory
quiet(w.__setitem__, 0xc095, 0x7f)
quiet(w.__setitem__, 0xc096, 0xfe)
for v in (1, 2):
    quiet(w.__setitem__, 0xc097, v)
assert a.uthernet.ptr == 0, hex(a.uthernet.ptr)
''')

bug("read-wraps-in-page", "C32",
    [("simulator/uthernet.py",
      '''        val = self.memory[self.ptr]
        self.ptr = (self.ptr + 1) & 0x7fff
''',
      '''        val = self.memory[self.ptr]
        self.ptr = (self.ptr & 0x7f00) | ((self.ptr + 1) & 0xff)
''')],
    "reading data across a 256-byte boundary of card memory",
    "the pointer wraps within the page", SIM + '''
a = on(new())
w = a.memory


def at(p):
    quiet(w.__setitem__, 0xc095, p >> 8)
    quiet(w.__setitem__, 0xc096, p & 255)


at(0x60f8)
for v in range(16):
    quiet(w.__setitem__, 0xc097, v)
at(0x60f8)
assert [quiet(lambda: w[0xc097]) for _ in range(16)] == list(range(16))
''')

bug("handlers-on-entry-only", "C33",
    [("simulator/memory.py",
      '''                raise UndefinedEntryPointException(self.regions[pc], old_pc, pc)

        for handler in handlers:
            handler(cpu)
''',
      '''                raise UndefinedEntryPointException(self.regions[pc], old_pc, pc)

            for handler in handlers:
                handler(cpu)
''')],
    "a ROM routine that calls another one at its entry point",
    "the handler does not run", SIM + '''
class Cpu:
    pc = 0


seen = []
mm = memory.MemoryManager([memory.MemoryRegion(
    "ROM", 0xd000, 0xffff, entrypoints={0xd010: seen.append,
                                        0xd020: seen.append})])
quiet(mm.enable)
c = Cpu()
for old, pc in ((0x0, 0xd010), (0xd011, 0xd020), (0xd022, 0xd010)):
    c.pc = pc
    quiet(mm.MaybeInterceptExecution, c, old)
assert len(seen) == 3, len(seen)
''')

bug("region-end", "C33",
    [("simulator/memory.py",
      "        addr_range = range(region.start, region.end + 1)",
      "        addr_range = range(region.start, region.end)")],
    "access to the last byte of a region",
    "the last byte of a ROM can be written", SIM + '''
a = on(new())
for addr in (0xc1ff, 0xffff, 0xd000, 0x4fff):
    try:
        quiet(a.memory.__setitem__, addr, 0x12)
    except memory.WriteProtectedException:
        continue
    assert False, hex(addr)
''')
