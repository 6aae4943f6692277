"""ffmpeg, ffprobe and bmp2dhr stand-ins; a Movie on a scratch folder."""
import os
import subprocess
import numpy as np
import skvideo.io

FRAMES = []         # (main, aux) bytes
RATE = ["30/1"]
CALLS = []
CONVERT = [None]    # override


def put(name, data):
    with open(name, "wb") as f:
        f.write(data)


class Reader:
    def __init__(self, *a, **k):
        pass

    def nextFrame(self):
        for i in range(len(FRAMES)):
            f = np.zeros((30, 40, 3), dtype=np.uint8)
            f[:] = (i & 255, i >> 8, 7)
            yield f

    def close(self):
        pass


class Popen:
    def __init__(self, args, *a, **k):
        if not [x for x in args if x.endswith(".bmp")]:
            raise FileNotFoundError(args[0])
        CALLS.append(list(args))
        bmp = [x for x in args if x.endswith(".bmp")][0]
        from PIL import Image
        im = Image.open(bmp)
        CALLS[-1].append(im.size)
        r, g, b = im.convert("RGB").getpixel((100, 100))
        i = r | g << 8
        stem = bmp[:-4]
        main, aux = FRAMES[i]
        if CONVERT[0] and CONVERT[0](i, stem):
            pass
        elif "dhgr" in args:
            put(stem + ".BIN", main)
            put(stem + ".AUX", aux)
        else:
            put(stem + "C.BIN", main)
        self.returncode = 0
        self.args = args
        self.stdout = self.stderr = self.stdin = None

    def wait(self, timeout=None):
        return 0

    def poll(self):
        return 0

    def communicate(self, *a, **k):
        return b"", b""

    def kill(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def install():
    skvideo.io.FFmpegReader = Reader
    skvideo.io.ffprobe = lambda f: {"video": {"@r_frame_rate": RATE[0]}}
    subprocess.Popen = Popen
