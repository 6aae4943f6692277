"""The whole transcoder, with its external programs replaced.

Input video, ffprobe and bmp2dhr do not exist here; deterministic stand-ins
are patched in where the repository calls the outside world.  Sound is a real
WAV file read by the real libraries.
"""
import io
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import types
import wave

from common import REPO, SCRATCH, CodeFault, ints, use_transcoder
import h_encoder

CONVERTER = "/usr/local/bin/bmp2dhr"
MARK = (40, 90, 140, 190)
FILM = b"\0\0\0\x20ftypisom"        # no format audioread knows by itself


class World:
    """What the outside world does in the current request."""
    frames = ()             # [(main bytes, aux bytes or None)]
    rate = "30/1"
    size = (40, 30)
    read_fail = None        # index at which reading the input fails
    read_exc = "OSError"
    conv_fail = {}          # index -> how the converter fails
    delay = {}              # index -> seconds the converter takes
    calls = []              # converter invocations
    opened = []
    gen = 0                 # of the request
    written = {}            # index -> files the converter wrote
    sound = None            # a film's sound: rate, channels, its name
    sound_fail = None       # frame of the sound file at which reading fails
    sound_exc = "OSError"


W = World


def fake_modules():
    """librosa imports these, but nothing used here needs them."""
    def passthrough(*a, **k):
        if len(a) == 1 and callable(a[0]) and not k:
            return a[0]
        return lambda f: f
    n = types.ModuleType("numba")
    for k in ("jit", "njit", "vectorize", "guvectorize", "stencil",
              "generated_jit"):
        setattr(n, k, passthrough)
    n.prange = range
    sys.modules["numba"] = n
    for k in ("sklearn", "sklearn.decomposition", "sklearn.cluster",
              "sklearn.feature_extraction", "sklearn.neighbors"):
        m = types.ModuleType(k)
        sys.modules[k] = m
        if "." in k:
            setattr(sys.modules["sklearn"], k.split(".")[1], m)


class Missing(FileNotFoundError):
    verif_origin = "REPO"


def scripted(name):
    """An exception of the named type that is not the harness's own."""
    base = {c.__name__: c for c in (
        IOError, RuntimeError, ValueError, AssertionError, EOFError, KeyError,
        IndexError, TypeError, MemoryError, BrokenPipeError, Exception,
        subprocess.CalledProcessError)}[name]
    if name == "CalledProcessError":
        e = base(1, "ffmpeg")
    else:
        e = base("scripted read failure")
    e.verif_origin = "REPO"
    return e


class Reader:
    def __init__(self, filename, *a, **k):
        W.opened.append(("reader", filename))
        a, b = W.rate.split("/")
        self.inputfps = float(a) / float(b)
        self.inputwidth, self.inputheight = W.size
        self.inputframenum = len(W.frames)
        self.gen = W.gen

    def getShape(self):
        return (len(W.frames), W.size[1], W.size[0], 3)

    def nextFrame(self):
        import numpy as np
        for i in range(len(W.frames)):
            # threads of an abandoned run find no more frames
            if self.gen != W.gen:
                return
            mine.gen = self.gen
            if W.read_fail == i:
                raise scripted(W.read_exc)
            h, w = W.size[1], W.size[0]
            f = np.empty((h, w, 3), dtype=np.uint8)
            # each quadrant is marked; frames differ a little, and not on
            # average
            for q in range(4):
                f[h // 2 * (q // 2):h if q // 2 else h // 2,
                  w // 2 * (q % 2):w if q % 2 else w // 2] = (
                      ((i & 255, i >> 8), (255 - (i & 255), 255 - (i >> 8)),
                       (99, 99), (99, 99))[q] + (MARK[q],))
            yield f
        if W.read_fail is not None and W.read_fail >= len(W.frames):
            raise scripted(W.read_exc)

    def __iter__(self):
        return self.nextFrame()

    def close(self):
        pass


def ffprobe(filename):
    W.opened.append(("probe", filename))
    # frames are delivered at the former rate, the latter counts held frames
    # of a film of variable rate once
    a, b = W.rate.split("/")
    avg = "%d/%d" % (int(a) * 9, int(b) * 10)
    return {"video": {"@r_frame_rate": W.rate, "@avg_frame_rate": avg,
                      "@width": str(W.size[0]), "@height": str(W.size[1])},
            "audio": {}}


mine = threading.local()


class Popen:
    """bmp2dhr, and ffmpeg decoding sound, and nothing else."""

    def __init__(self, args, *a, **k):
        self.args = args
        self.stdout = self.stderr = self.stdin = None
        self.pid = 999999
        if isinstance(args, str):
            import shlex
            args = shlex.split(args)
        args = [os.fspath(x) for x in args]
        if os.path.basename(args[0]) == "ffmpeg":
            self.returncode = self.decode(args)
        else:
            self.returncode = self.convert(args)

    def decode(self, args):
        """ffmpeg as audioread calls it; the film's name says what it is."""
        if W.sound is None:
            e = FileNotFoundError(2, "No such file", args[0])
            e.verif_origin = "REPO"
            raise e
        self.stdout = self.stderr = io.BytesIO()
        if "-version" in args:
            return 0
        rate, channels, name = W.sound
        with open(args[args.index("-i") + 1], "rb") as f:
            data = f.read()[len(FILM):]
        layout = {1: "mono", 2: "stereo", 3: "2.1", 6: "5.1(side)",
                  8: "7.1"}.get(channels, "%d channels" % channels)
        self.stdout = io.BytesIO(data)
        self.stderr = io.BytesIO((
            "Input #0, mov, from '%s':\n  Duration: 00:00:09.50, start: "
            "0.000000, bitrate: 300 kb/s\n    Stream #0:1: Audio: aac, %d "
            "Hz, %s, fltp, 128 kb/s\n" % (name, rate, layout)).encode())
        return 0

    def convert(self, args):
        from PIL import Image
        calls, written, frames, fails, delay = (
            W.calls, W.written, W.frames, W.conv_fail, W.delay)
        if getattr(mine, "gen", W.gen) != W.gen:
            return 1
        with Image.open(args[1]) as im:
            size = im.size
            rgb = im.convert("RGB")
            px = [rgb.getpixel((size[0] * (1 + 2 * (q % 2)) // 4,
                                size[1] * (1 + 2 * (q // 2)) // 4))
                  for q in range(4)]
        idx = px[0][0] | px[0][1] << 8
        calls.append((args, size, idx, px))
        if idx >= len(frames):
            return 1        # not one of the input's frames
        if idx in delay:
            import time
            time.sleep(delay[idx])
        how = fails.get(idx)
        if how == "missing":
            raise Missing(2, "No such file", args[0])
        if how == "denied":
            e = PermissionError(13, "Permission denied", args[0])
            e.verif_origin = "REPO"
            raise e
        if how == "nothing":
            return 1
        stem = args[1][:-4] if args[1].lower().endswith(".bmp") else args[1]
        main, aux = frames[idx]
        if how == "short":
            main = main[:8000]
        if how == "shortaux":
            aux = aux[:4000]
        if args[2] == "hgr":
            out = [(stem + "C.BIN", main)]
        else:
            out = [(stem + ".BIN", main), (stem + ".AUX", aux)]
            if how == "noaux":
                out = out[:1]
        for fn, data in out:
            written.setdefault(idx, []).append(fn)
            with open(fn, "wb") as f:
                f.write(data)
        return 1 if how == "status" else 0

    def wait(self, timeout=None):
        return self.returncode

    def poll(self):
        return self.returncode

    def communicate(self, input=None, timeout=None):
        return None, None

    def kill(self):
        pass

    terminate = kill

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def guard():
    """Keeps the code's file operations inside the scratch directory."""
    root = os.path.realpath(SCRATCH) + os.sep

    def check(p):
        if isinstance(p, int):
            return
        q = os.path.realpath(os.path.join(os.getcwd(), os.fspath(p)))
        if not (q + os.sep).startswith(root):
            e = CodeFault("the code wants to change %s, outside its "
                          "directory" % q)
            raise e
    for name in ("makedirs", "mkdir", "remove", "unlink", "rmdir"):
        real = getattr(os, name)

        def f(path, *a, _real=real, **k):
            check(path)
            return _real(path, *a, **k)
        setattr(os, name, f)
    for name in ("rename", "replace"):
        real = getattr(os, name)

        def g(a, b, *x, _real=real, **k):
            check(a)
            check(b)
            return _real(a, b, *x, **k)
        setattr(os, name, g)


def preload():
    fake_modules()
    use_transcoder()
    # libraries look for shared objects by running programs: load them first
    import audioread
    import librosa
    import numpy as np
    import scipy.signal
    librosa.resample(np.zeros(100, dtype="float32"), orig_sr=200,
                     target_sr=100, res_type="scipy", scale=True)
    import skvideo.io
    skvideo.io.FFmpegReader = Reader
    skvideo.io.ffprobe = ffprobe
    subprocess.Popen = Popen
    guard()
    import movie
    import main
    h_encoder.preload()
    if os.environ.get("VERIF_PLAYER"):
        import h_player
        h_player.preload()


def write_wav(path, samples, rate, channels=1):
    """samples: int16 little-endian bytes, interleaved."""
    with wave.open(path, "wb") as w:
        w.setnchannels(channels)
        w.setsampwidth(2)
        w.setframerate(rate)
        w.writeframes(samples)


class Dir:
    """A scratch directory for one request."""

    def __enter__(self):
        self.d = tempfile.mkdtemp(dir=SCRATCH)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def world(**kw):
    W.gen += 1
    for k, v in dict(frames=(), rate="30/1", size=(40, 30), read_fail=None,
                     read_exc="OSError", conv_fail={}, delay={},
                     sound_fail=None, sound_exc="OSError").items():
        setattr(W, k, kw.get(k, v))
    W.calls = []
    W.opened = []
    W.written = {}
    h_encoder.fresh()


def no_threads(n0, wait=5):
    """Lets background threads of the code finish."""
    import time
    end = time.time() + wait
    while threading.active_count() > n0 and time.time() < end:
        time.sleep(0.002)
    return threading.active_count() - n0


def make_movie(d, mode, pal, every, rate, norm, limit, wav, name="in.mov"):
    import movie
    import palette
    import video_mode
    p = os.path.join(d, name)
    write_wav(p, wav, int(rate))
    return movie.Movie(
        p, every_n_video_frames=every, audio_bitrate=rate,
        audio_normalization=norm, max_bytes_out=limit,
        video_mode=video_mode.VideoMode[mode], palette=palette.Palette[pal])


def tick_op(op):
    import opcodes
    import video_mode
    k = op[0]
    if k == "tick":
        return opcodes.TICK_OPCODES[(op[1], op[2])](op[3], tuple(op[4]))
    if k == "tickl":        # offsets as a list, as the encoder gives them
        return opcodes.TICK_OPCODES[(op[1], op[2])](op[3], list(op[4]))
    if k == "tickn":        # numbers of the types the encoder gives them
        import numpy as np
        return opcodes.TICK_OPCODES[(op[1], op[2])](
            np.uint8(op[3]), [op[4][0]] + [np.int64(o) for o in op[4][1:]])
    if k == "ack":
        return opcodes.Ack(bool(op[1]))
    if k == "nop":
        return opcodes.Nop()
    if k == "terminate":
        return opcodes.Terminate()
    return opcodes.Header(video_mode.VideoMode[op[1]])


def emit_stream(mode, limit, ops):
    """Bytes of a stream of given operations."""
    world()
    with Dir() as d:
        m = make_movie(d, mode, "NTSC", 1, 8000, 1.0, limit, b"\0\1" * 8)
        out = bytearray()
        for b in m.emit_stream(tick_op(o) for o in ops):
            b = int(b)
            if not 0 <= b < 256:
                raise CodeFault("emitted %r, which is not a byte" % b)
            out.append(b)
            if len(out) > 20 * len(ops) + 10000:
                raise CodeFault("the stream does not end")
        return bytes(out)


def emit_many(mode, limit, n, salt):
    """Bytes of a stream of n operations which follow from their index."""
    import opcodes
    world()

    def ops():
        yield tick_op(("header", mode))
        for i in range(n):
            h = (i * 2654435761 + salt) & 0xffffffff
            yield opcodes.TICK_OPCODES[(4 + 2 * (h >> 27), 32 + (
                h >> 22 & 31))](h >> 14 & 255, [i & 255, i >> 8 & 255,
                                                i >> 16 & 255, h & 255])

    with Dir() as d:
        m = make_movie(d, mode, "NTSC", 1, 8000, 1.0, limit, b"\0\1" * 8)
        out = bytearray()
        try:
            for b in m.emit_stream(ops()):
                out.append(b)
                if len(out) > 8 * n + 10000:
                    raise CodeFault("the stream does not end")
        except (ValueError, TypeError) as e:
            raise CodeFault("emitted what is not a byte: %s" % e)
        return bytes(out)


def emit(ops):
    import machine
    st = machine.Machine()
    return [bytes(ints(st.emit(tick_op(o)))) for o in ops]


def equal(ops):
    """Matrix of ==, and of the bytes each is encoded to."""
    import machine
    st = machine.Machine()
    o = [tick_op(x) for x in ops]
    p = [tick_op(x) for x in ops]
    eq = [[bool(a == b) for b in p] for a in o]
    ne = [[bool(a != b) for b in p] for a in o]
    return eq, ne, [bytes(ints(st.emit(x))) for x in o]


def transcode(mode, pal, every, rate, wav, fps, frames, limit, rng,
              norm=1.0, conv_fail=None):
    """One run of the pipeline.  Returns the bytes and the encoder's belief,
    and the bytes of the last operation it made."""
    import machine
    import numpy as np
    world(frames=frames, rate=fps, conv_fail=conv_fail or {})
    random.seed(rng)
    np.random.seed(rng & 0xffffffff)
    n0 = threading.active_count()
    with Dir() as d:
        m = make_movie(d, mode, pal, every, rate, norm, limit, wav)
        last = [None, 0]

        def ops():
            for op in m.encode():
                last[0] = op
                last[1] += 1
                yield op
        out = bytearray()
        cap = len(wav) * 8 + 20000
        for b in m.emit_stream(ops()):
            out.append(int(b))
            if len(out) > cap:
                raise CodeFault("the stream does not end")
        belief = (h_encoder.raw_of(m.video.memory_map),
                  h_encoder.raw_of(m.video.aux_memory_map)
                  if mode == "DHGR" else None)
        return (bytes(out), belief,
                bytes(ints(machine.Machine().emit(last[0]))), last[1],
                [c[2] for c in W.calls])


class FailingWave(wave.Wave_read):
    """Cannot be read beyond a point of the file."""

    def readframes(self, n):
        if W.sound_fail is None:
            return super().readframes(n)
        left = W.sound_fail - self.tell()
        if left <= 0:
            raise scripted(W.sound_exc)
        return super().readframes(min(n, left))


def faulty(fault, argv, name, wav, rate, fps, frames, rng):
    """The command line, with something failing: how it ended and the file it
    left, or None.  The output is out.a2m."""
    import numpy as np
    import runpy
    kind = fault[0] if fault else None
    kw = {}
    if kind == "sound":
        kw = dict(sound_fail=fault[1], sound_exc=fault[2])
    elif kind == "conv":
        kw = dict(conv_fail={fault[1]: fault[2]})
    elif kind == "read":
        kw = dict(read_fail=fault[1], read_exc=fault[2])
    world(frames=frames, rate=fps, **kw)
    random.seed(rng)
    np.random.seed(rng & 0xffffffff)
    old = sys.argv
    n0 = threading.active_count()
    with Dir() as d:
        p = os.path.join(d, name)
        write_wav(p, wav, rate, 1)
        if kind == "undecodable":
            with open(p, "wb") as f:
                f.write(b"neither sound nor film" * fault[1])
        elif kind == "absent":
            os.remove(p)
        out = os.path.join(d, "out.a2m")
        if kind == "full":
            # replacing or removing it is no harm
            os.symlink("/dev/full", out)
        elif kind == "directory":
            os.mkdir(out)
        elif kind == "nowhere":
            out = os.path.join(d, "no", "out.a2m")
        sys.argv = ["main.py", p, "--output", out] + argv
        wave_read = wave.Wave_read
        wave.Wave_read = FailingWave
        how = None
        try:
            runpy.run_path(os.path.join(REPO, "transcoder", "main.py"),
                           run_name="__main__")
        except SystemExit as e:
            how = "SystemExit(%r)" % e.code if e.code else None
        except Exception as e:
            how = "%s: %s" % (type(e).__name__, e)
        finally:
            sys.argv = old
            wave.Wave_read = wave_read
            W.sound_fail = None
        no_threads(n0, 0.3)
        if os.path.isfile(out) and not os.path.islink(out):
            with open(out, "rb") as f:
                return how, f.read()
        return how, None


def command(argv, name, wav, rate, channels, fps, frames, rng, junk=()):
    """The transcoder's command line.  "{d}" in arguments is the directory
    of the input."""
    import movie
    import numpy as np
    import runpy
    world(frames=frames, rate=fps)
    random.seed(rng)
    np.random.seed(rng & 0xffffffff)
    made = []
    init = movie.Movie.__init__

    def note(self, *a, **k):
        init(self, *a, **k)
        made.append(self)
    old = sys.argv
    n0 = threading.active_count()
    with Dir() as d:
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        write_wav(p, wav, rate, channels)
        for j in junk:
            with open(os.path.join(d, j), "wb") as f:
                f.write(b"junk" * 5000)
        movie.Movie.__init__ = note
        sys.argv = ["main.py"] + [a.replace("{d}", d) for a in argv]
        try:
            runpy.run_path(os.path.join(REPO, "transcoder", "main.py"),
                           run_name="__main__")
        except SystemExit as e:
            raise CodeFault("the command line %r is refused: %r" % (argv, e))
        finally:
            sys.argv = old
            movie.Movie.__init__ = init
        files = {}
        for q, _, fs in os.walk(d):
            for f in fs:
                f = os.path.join(q, f)
                r = os.path.relpath(f, d)
                if r != name and not f.endswith((".BIN", ".AUX",
                                                    ".bmp")):
                    files[r] = open(f, "rb").read()
        belief = None
        if len(made) == 1:
            v = made[0].video
            belief = (raw_bank(v, "memory_map"), raw_bank(
                v, "aux_memory_map"))
        return dict(files=files, belief=belief,
                    calls=[c[0][2:] for c in W.calls])


def raw_bank(v, name):
    m = getattr(v, name, None)
    return None if m is None else h_encoder.raw_of(m)


def content(key, bank):
    """Conversion of a frame, as a screen."""
    import hashlib
    return hashlib.sha256(repr((key, bank)).encode()).digest() * 256


def digest(mm):
    import hashlib
    if mm is None:
        return None
    a = mm.page_offset
    if a.shape != (32, 256):
        raise CodeFault("a screen of shape %r" % (a.shape,))
    return hashlib.sha256(a.astype("uint8").tobytes()).hexdigest()


def settle(limit=2.0):
    """Until the background thread has nothing more to do."""
    import time
    end = time.time() + limit
    while time.time() < end:
        n = len(W.calls)
        time.sleep(0.06 + max(W.delay.values(), default=0))
        if len(W.calls) == n:
            return


def grab(runs):
    """Frame sources made one after the other in one directory."""
    import time
    import frame_grabber
    import palette
    import video_mode
    res = []
    written = {}
    with Dir() as d:
        for r in runs:
            key = (r["name"], r["mode"], r["pal"])
            dh = r["mode"] == "DHGR"
            frames = [(content(key + (i, r["rev"]), 0),
                       content(key + (i, r["rev"]), 1) if dh else None)
                      for i in range(r["n"])]
            world(frames=frames, rate=r.get("rate", "30/1"), size=r["size"],
                  read_fail=r.get("read_fail"),
                  read_exc=r.get("read_exc", "OSError"),
                  conv_fail={int(k): v for k, v in
                             (r.get("conv_fail") or {}).items()},
                  delay={int(k): v / 1000. for k, v in
                         (r.get("delay") or {}).items()})
            if r.get("delay_all"):
                W.delay = {i: r["delay_all"] / 1000. for i in range(r["n"])}
            for i, which in r.get("drop", ()):
                fs = sorted(set(written.get(key, {}).get(i, [])))
                if fs and os.path.exists(fs[which % len(fs)]):
                    os.remove(fs[which % len(fs)])
            p = os.path.join(d, r["name"])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "a").close()
            if r.get("blocked"):
                s = p[:p.rindex(".")]
                shutil.rmtree(s, ignore_errors=True)
                open(s, "w").close()
            got, exc, rate = [], None, None
            pace = r.get("pace") or [0]
            try:
                g = frame_grabber.FileFrameGrabber(
                    p, video_mode.VideoMode[r["mode"]],
                    palette.Palette[r["pal"]])
                rate = float(g.input_frame_rate)
                it = iter(g.frames())
                while r["take"] is None or len(got) < r["take"]:
                    if pace[len(got) % len(pace)]:
                        time.sleep(pace[len(got) % len(pace)] / 1000.)
                    try:
                        main, aux = next(it)
                    except StopIteration:
                        break
                    got.append((digest(main), digest(aux)))
                    if len(got) > r["n"] + 5:
                        break
            except Exception as e:
                exc = "%s: %s" % (type(e).__name__, e)
            settle()
            it = None
            for i, fs in W.written.items():
                written.setdefault(key, {}).setdefault(i, []).extend(fs)
            left = [f for _, _, fs in os.walk(d) for f in fs
                    if f.lower().endswith((".bmp", ".png", ".gif", ".ppm",
                                           ".tif", ".jpg"))]
            res.append(dict(
                frames=got, exc=exc, left=left, rate=rate,
                calls=[([os.path.basename(a[0])] + a[2:], size, i, px)
                       for a, size, i, px in W.calls],
                there=[i for i, fs in W.written.items()]))
    return res


def audio(wav, rate, channels, bitrate, norm, film=False):
    """Duty cycle counts of a sound file, or of a film's sound."""
    import audio as A
    import audioread
    W.sound = (rate, channels, "in.mp4") if film else None
    audioread.available_backends(flush_cache=True)
    with Dir() as d:
        p = os.path.join(d, "in.mp4" if film else "in.wav")
        if film:
            with open(p, "wb") as f:
                f.write(FILM + wav)
        else:
            write_wav(p, wav, rate, channels)
        a = A.Audio(p, bitrate=bitrate, normalization=norm)
        out = []
        for v in a.audio_stream():
            if int(v) != v:
                raise CodeFault("%r is not a whole duty cycle" % v)
            out.append(int(v))
            if len(out) > 10 ** 7:
                raise CodeFault("the sound does not end")
        return out, float(a.sample_rate), float(a.normalization)


def clock(rate, fps, n):
    """The samples at which frames are due, little-endian 64-bit."""
    import frame_grabber
    import numpy as np
    import palette
    import video
    import video_mode
    vm = video_mode.VideoMode.HGR
    g = frame_grabber.FrameGrabber(vm)
    a, b = fps.split("/")
    g.input_frame_rate = float(a) / float(b)
    v = video.Video(g, ticks_per_second=float(rate), mode=vm,
                    palette=palette.Palette.NTSC)
    out = []
    tick = v.tick
    for i in range(1, n + 1):
        if tick(i):
            out.append(i)
    return np.array(out, dtype="<i8").tobytes()


def info():
    import h_player
    return h_player.info()


def play(**kw):
    import h_player
    return h_player.play(**kw)


HANDLERS = dict(clock=clock, faulty=faulty, command=command, info=info, play=play, grab=grab, audio=audio, emit_stream=emit_stream,
                emit_many=emit_many, emit=emit, equal=equal,
                transcode=transcode, encode=h_encoder.encode)
