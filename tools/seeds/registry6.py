from mk import bug, T, S, P, M, ENC, F
from registry2 import VID, AUD
from registry3 import MOVIE, GRAB, SIM, SERVE, MAIN, ALL

bug("heap-limited", "C14",
    [("transcoder/video.py",
      """        heapq.heapify(priorities)
        return priorities

    _OFFSETS""",
      """        # Keep the queue short; a sorted list is a heap.
        return heapq.nsmallest(2048, priorities)

    _OFFSETS""")],
    "more than 2048 differences and an encoding of which so many operations "
    "are taken that the rest would be due",
    "the encoder idles with differences outstanding", VID + '''
r = np.random.RandomState(5)
pat = np.resize(r.randint(1, 128, 251), 8192).astype(np.uint8)
m = pat.reshape(32, 256).copy()
m[screen.SCREEN_HOLES] = 0
t = screen.HGRBitmap(palette=palette.Palette.NTSC,
                     main_memory=screen.MemoryMap(screen_page=1, page_offset=m))
v = new(VideoMode.HGR)
seen = set()
for i, (page, content, offsets) in enumerate(v.encode_frame(t, is_aux=False)):
    seen.update((page, o) for o in offsets)
    left = (v.memory_map.page_offset != m).sum()
    if not left:
        break
    assert i < 8192, left
''')

bug("aux-keeps-priority", "C14",
    [("transcoder/video.py",
      """        update_priority[diff_weights == 0] = 0
""",
      """        if not is_aux:
            update_priority[diff_weights == 0] = 0
""")],
    "an aux byte that differed from one frame and is right for a later one "
    "without having been stored in between",
    "it keeps its priority and is served before real differences", VID + '''
def pic(a):
    return screen.DHGRBitmap(
        palette=palette.Palette.NTSC,
        main_memory=screen.MemoryMap(screen_page=1, page_offset=np.zeros(
            (32, 256), dtype=np.uint8)),
        aux_memory=screen.MemoryMap(screen_page=1, page_offset=a.copy()))


a2 = np.zeros((32, 256), dtype=np.uint8)
a2[3, 20] = a2[9, 20] = 0x7f
v = new(VideoMode.DHGR)
page, _, offs = next(v.encode_frame(pic(a2), is_aux=True))
# the one that was not served is right again in the next frame
other = 12 - (page - 32)
a2[other, 20] = 0
a2[5, 60] = 0x7f
for i, (page, content, offs) in enumerate(
        v.encode_frame(pic(a2), is_aux=True)):
    assert page - 32 != other, (page, offs)
    if i > 3:
        break
''')

bug("percentiles", "C23",
    [("transcoder/audio.py",
      "np.percentile(a, [0.5, 99.5])", "np.percentile(a, [1, 99])")],
    "a sound of which between a half and one per cent is much louder than "
    "the rest",
    "more of it is clipped than documented", AUD + '''
n = 40000
a = np.tile([[2000], [-2000]], (n // 2, 1))
a[1000:1000 + n * 7 // 1000] = 12000
g = stream(1, a, None)[1]
assert 1.2 < g < 1.5, g
''')

bug("open-when-connected", "C32",
    [("simulator/uthernet.py",
      """                self.memory[0x403] = 0x13
""",
      """                if self.memory[0x403] != 0x17:
                    self.memory[0x403] = 0x13
""")],
    "opening the socket again when it is connected",
    "the status stays at established", SIM + '''
u = quiet(uthernet.Uthernet, b"")


def cmd(c):
    u.ptr = 0x401
    quiet(u.write_data, c)
    u.ptr = 0x403
    return quiet(u.read_data)


assert cmd(1) == 0x13
assert cmd(4) == 0x17
assert cmd(1) == 0x13
''')

bug("cached-by-size", "C30",
    [("server/server.py",
      "import argparse\n", "import argparse\nimport os\n"),
     ("server/server.py",
      "    def handler():\n",
      "    cache = {}\n\n    def handler():\n"),
     ("server/server.py",
      """                with open(serve_file, "rb") as f:
                    data = f.read()
                    print("Sending %d bytes" % len(data))
                    self.request.sendall(data)
""",
      """                size = os.path.getsize(serve_file)
                if size not in cache:
                    cache.clear()
                    with open(serve_file, "rb") as f:
                        cache[size] = f.read()
                data = cache[size]
                print("Sending %d bytes" % len(data))
                self.request.sendall(data)
""")],
    "a film that is replaced by one of the same size between two connections",
    "the old one is sent", SERVE + '''
r = None
try:
    p = port()
    for data in (b"a" * 5000, b"b" * 4999, b"c" * 4999):
        with open(FILE, "wb") as f:
            f.write(data)
        r = r or start(p)
        assert r
        assert fetch(p) == data
    stop(r)
    r = None
finally:
    if r:
        stop(r)
    import shutil
    shutil.rmtree(D)
''')

bug("no-truncate", "C26",
    [("transcoder/main.py",
      "import argparse\n", "import argparse\nimport os\n"),
     ("transcoder/main.py",
      """    with open(out_filename, "wb") as out:
""",
      """    with open(out_filename,
              "r+b" if os.path.isfile(out_filename) else "wb") as out:
""")],
    "an output file that exists already and is longer than the new one",
    "the end of the old file stays behind the new film", MAIN + '''
try:
    frames(3)
    silence(300)
    run("f.wav")
    want = os.path.getsize(D + "/f.a2m")
    with open(D + "/f.a2m", "ab") as f:
        f.write(b"x" * 5000)
    run("f.wav")
    assert os.path.getsize(D + "/f.a2m") == want
finally:
    finish()
''', ALL)

# --- disk image -------------------------------------------------------------
DISK = '''import os
import shutil
import subprocess
import tempfile
D = tempfile.mkdtemp()
P = os.path.join(D, "player")
shutil.copytree("player", P, ignore=shutil.ignore_patterns("iivision*"))


def make(*args):
    return subprocess.run(
        ["make", "CC65_BIN=/usr/bin", "CC65_HOME=/usr/share/cc65"] +
        list(args), cwd=P, stdout=subprocess.DEVNULL,
        stderr=subprocess.DEVNULL).returncode


def ac(*args):
    return subprocess.run(["java", "-jar", "make/AppleCommander.jar"] +
                          list(args), cwd=P, stdout=subprocess.PIPE).stdout
'''

bug("player-over-buffer", "C35",
    [("player/main.s",
      """exit_parmtable:
""",
      """; keep clear of the parameter table
exit_gap:
    .res    64

exit_parmtable:
""")],
    "booting the disk: the loader's file buffer is at $BB00",
    "the player now reaches into it and ProDOS refuses to load it",
    DISK + '''
try:
    assert make("iivision") == 0
    n = os.path.getsize(P + "/iivision") - 58
    assert 0x800 + n <= 0xbb00, hex(0x800 + n)
finally:
    shutil.rmtree(D)
''')

bug("extra-dirs-flat", "C35",
    [("player/make/createDiskImage",
      """        DESTFILE=`echo $FILE | sed 's/^\\.\\///'`
""",
      """        DESTFILE=`basename $FILE`
""")],
    "further files in subdirectories",
    "they end up in the root directory", DISK + '''
try:
    os.makedirs(P + "/ex/sub")
    with open(P + "/ex/sub/pic.bin", "wb") as f:
        f.write(b"abc" * 300)
    assert make("COPYDIRS=ex") == 0
    assert b"DIR" in ac("-l", "iivision.dsk")
finally:
    shutil.rmtree(D)
''')

bug("loader-name-unchecked", "C35",
    [("player/make/createDiskImage",
      """    if [ ${#LOADERFILE} -gt $MAXFILENAMELEN ]
""",
      """    if [ ${#TARGETFILE} -gt $MAXFILENAMELEN ]
""")],
    "a programme name of 9 to 15 characters with a loader",
    "the loader's name is too long for ProDOS, and the disk is not refused",
    DISK + '''
try:
    assert make("PGM=abcdefgh") == 0
    assert make("PGM=abcdefghi") != 0
finally:
    shutil.rmtree(D)
''')

bug("reboot-keeps-basic", "C35",
    [("player/make/createDiskImage",
      """    apple2-reboot)
        TEMPLATE="make/prodos_template.dsk"
        DELETELOADER=0
        RENAMELOADER=1
        DELETEBASIC=1
""",
      """    apple2-reboot)
        TEMPLATE="make/prodos_template.dsk"
        DELETELOADER=0
        RENAMELOADER=1
        DELETEBASIC=0
""")],
    "the machine type apple2-reboot",
    "a system file that does not belong there stays on the disk", DISK + '''
try:
    assert make("MACHINE=apple2-reboot") == 0
    assert b"BASIC.SYSTEM" not in ac("-l", "iivision.dsk")
finally:
    shutil.rmtree(D)
''')
