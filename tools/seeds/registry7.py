from mk import bug, T, S, P, M, ENC, F
from registry2 import VID, AUD
from registry3 import MOVIE, GRAB, SIM, SERVE, MAIN, ALL
from registry5 import BOOT

# --- stream -----------------------------------------------------------------
RUN = M + '''
import movie, opcodes, machine
from video_mode import VideoMode


def run(n, limit=None, mode=VideoMode.HGR):
    m = movie.Movie.__new__(movie.Movie)
    m.max_bytes_out = limit
    m.video_mode = mode
    m.stream_pos = 0
    m.aux_memory_bank = False
    m.state = machine.Machine()
    ops = [opcodes.Header(mode=mode)] + [
        opcodes.TICK_OPCODES[(4, 32)](i % 128, (1, 2, 3, 4))
        for i in range(n)]
    return list(m.emit_stream(iter(ops)))
'''

bug("full-frame-no-terminate", "C01",
    [("transcoder/movie.py",
      """                assert self.stream_pos % 2048 == 0, self.stream_pos % 2048

        yield from self.done()
""",
      """                assert self.stream_pos % 2048 == 0, self.stream_pos % 2048

        if self.stream_pos % 2048:
            yield from self.done()
""")],
    "an input that ends with the last operation of a 2 KB frame",
    "the stream ends without TERMINATE", RUN + '''
term = opcodes.Terminate._START
for n in (5, 290, 291, 292, 583):
    s = run(n)
    p = 7 * (n + 1) + 4 * ((n + 1) // 292)
    assert len(s) % 2048 == 0
    assert s[p:p + 2] == [term >> 8, term & 255], (n, s[p:p + 2])
    assert not any(s[p + 2:])
''')

bug("emit-cache", "C02",
    [("transcoder/machine.py",
      """        data = opcode.emit_data()
        if data:
            yield from data
""",
      """        offsets = getattr(opcode, "offsets", None)
        if offsets:
            # The same stores are encoded over and over again
            key = (opcode.content, frozenset(offsets))
            if key not in self._encoded:
                self._encoded[key] = tuple(opcode.emit_data())
            yield from self._encoded[key]
        else:
            yield from opcode.emit_data() or ()
"""),
     ("transcoder/machine.py",
      '''    """Represents Apple II and player virtual machine state."""

    def emit''',
      '''    """Represents Apple II and player virtual machine state."""

    def __init__(self):
        self._encoded = {}

    def emit''')],
    "two operations with the same content and the same set of offsets in a "
    "different order or number",
    "the second is encoded as the first", T + '''
import opcodes, machine
m = machine.Machine()
op = opcodes.TICK_OPCODES[(4, 32)]
for offs in ((1, 2, 3, 4), (4, 3, 2, 1), (1, 1, 2, 2), (1, 2, 2, 2)):
    b = list(m.emit(op(7, offs)))
    assert b[2:] == [7] + list(offs), (b, offs)
''')

# --- screen -----------------------------------------------------------------
bug("page-base-or", "C21",
    [("transcoder/screen.py",
      "    addr = 8192 * (page + 1) + 1024 * c + 128 * b + 40 * a\n",
      "    addr = ((1 | page) << 13) + 1024 * c + 128 * b + 40 * a\n")],
    "the second hi-res page",
    "its rows get the addresses of the first page's", T + '''
import screen
seen = {}
for p in range(2):
    for y in range(192):
        for x in range(40):
            a = screen.y_to_base_addr(y, p) + x
            assert a not in seen, (p, y, x, seen[a])
            seen[a] = p, y, x
''')

bug("clipped", "C20",
    [("transcoder/screen.py",
      "            dist[i, transpose] += dist[i, identity]\n",
      "            dist[i, transpose] += dist[i, identity]\n"
      "        # More than that is never worth telling apart\n"
      "        np.minimum(dist, 1023, out=dist)\n")],
    "displays whose distance is more than 1023",
    "the loaded table does not give their distance", T + '''
import tempfile, shutil
import numpy as np
import palette, screen
d = tempfile.mkdtemp()
try:
    os.makedirs(d + "/transcoder/data")
    os.chdir(d)
    n = 2 ** 26
    t = np.zeros((1, n), dtype=np.uint16)
    want = {}
    for i, j, v in ((8000, 3, 700), (8100, 8000, 1023), (5, 2, 1024),
                    (8191, 0, 1600)):
        t[0, (i << 13) + j] = v
        want[i, j] = v
    np.savez("transcoder/data/DHGR_palette_0_edit_distance.npz",
             edit_distance=t)
    del t
    e = screen.DHGRBitmap.edit_distances(palette.Palette.IIGS)
    for (i, j), v in want.items():
        assert e[0][(i << 13) + j] == v and e[0][(j << 13) + i] == v, (i, j)
finally:
    os.chdir(ROOT)
    shutil.rmtree(d)
''')

bug("hgr-one-dot-less", "C19",
    [("transcoder/screen.py",
      "    MASKED_DOTS = np.uint64(18)  # 3 + 7 + 7\n",
      "    MASKED_DOTS = np.uint64(17)  # 3 + 7 + 7\n")],
    "hi-res displays that differ in their last pixel only",
    "the distance is zero", T + '''
import make_data_tables as t
import colours, palette, screen
e = t.compute_substitute_costs(palette.NTSCPalette)


def dist(a, b, o):
    s = [t.pixel_string(colours.dots_to_nominal_colour_pixel_values(
        screen.HGRBitmap.MASKED_DOTS, screen.HGRBitmap.to_dots(v, o),
        colours.HGRColours, init_phase=screen.HGRBitmap.PHASES[o]))
        for v in (a, b)]
    return t.edit_distance(e, s[0], s[1], False)


# the second dot of the next byte lies under the last pixel
for o in (0, 1):
    assert dist(0, 1 << 13, o) > 0
    assert len(colours.dots_to_nominal_colour_pixel_values(
        screen.HGRBitmap.MASKED_DOTS, 0, colours.HGRColours)) == 18
''')

bug("greys-swapped", "C19",
    [("transcoder/colours.py",
      "    GREY1 = 0b0101\n    GREEN = 0b1100",
      "    GREY1 = 0b1010\n    GREEN = 0b1100"),
     ("transcoder/colours.py",
      "    GREY2 = 0b1010\n    PINK = 0b1011\n",
      "    GREY2 = 0b0101\n    PINK = 0b1011\n")],
    "hi-res with the IIGS palette, in which the two greys differ",
    "each grey is given the other's colour", T + '''
import colours, palette
# hi-res is double hi-res one colour clock tick later
for c in colours.HGRColours:
    assert colours.DHGRColours[c.name].value == colours.ror(c.value, 1), c
''')

# --- encoder ----------------------------------------------------------------
bug("pad-into-hole", "C11",
    [("transcoder/video.py",
      "                offsets.append(offsets[0])\n",
      "                # Nobody looks at the screen holes\n"
      "                offsets.append(offsets[0] | 0x7f)\n")],
    "an operation with fewer than four useful offsets",
    "screen holes are written", VID + '''
for mode in (VideoMode.HGR, VideoMode.DHGR):
    v = new(mode)
    t = picture(3, mode, 0.002)
    g = v.encode_frame(t, is_aux=False)
    for _ in range(40):
        page, content, offs = next(g)
        for o in offs:
            assert not screen.SCREEN_HOLES[page - 32, o], (page, offs)
''')

bug("dhgr-high-bit-carried", "C11",
    [("transcoder/video.py",
      """                # DHGR palette bit not expected to be set
                assert content < 0x80
""",
      """                # DHGR palette bit has no effect
                pass
""")],
    "a double hi-res frame with the unused high bit set in a byte",
    "the high bit is stored", VID + '''
a = np.zeros((32, 256), np.uint8)
a[4, 10] = 0xff
z = np.zeros((32, 256), np.uint8)
t = screen.DHGRBitmap(palette=NTSC, main_memory=screen.MemoryMap(1, a),
                      aux_memory=screen.MemoryMap(1, z))
try:
    page, content, offs = next(new(VideoMode.DHGR).encode_frame(
        t, is_aux=False))
    assert content < 128, content
except AssertionError as e:
    assert not e.args or not e.args[0], e
''')

# --- symbol table -----------------------------------------------------------
bug("one-block-of-symbols", "C29",
    [("transcoder/symbol_table.py",
      """                if not line.startswith("sym"):
                    continue
""",
      """                if not line.startswith("sym"):
                    if syms:
                        # That was the last one
                        break
                    continue
""")],
    "a debug file whose symbol lines are not all in one block",
    "the symbols of the later blocks are lost", T + '''
import io
import symbol_table
s = ('sym\\tid=0,name="a",val=0x1,type=lab\\nline\\tid=0,file=1,line=60\\n'
     'sym\\tid=1,name="b",val=0x2,type=lab\\n')
r = symbol_table.SymbolTable().parse(io.StringIO(s))
assert sorted(r) == ['"a"', '"b"'], r
''')

bug("attributes-cut", "C29",
    [("transcoder/symbol_table.py",
      "                data = line.split()[1].split(\",\")\n",
      "                data = line.split()[1].split(\",\", 8)[:8]\n")],
    "a symbol with more than eight attributes",
    "the last attributes are missing", T + '''
import io
import symbol_table
for n in range(2, 12):
    kv = ["id=%d" % n, 'name="x"'] + ["k%d=%d" % (i, i) for i in range(n - 2)]
    r = symbol_table.SymbolTable().parse(io.StringIO("sym\\t" + ",".join(kv)))
    assert r['"x"'] == dict(x.split("=") for x in kv), (n, r)
''')

# --- simulator --------------------------------------------------------------
bug("zero-is-a-read", "C31",
    [("simulator/machine.py",
      "            AccessMode.READ if (value is None) else AccessMode.WRITE)\n",
      "            AccessMode.READ if not value else AccessMode.WRITE)\n")],
    "writing zero to a soft switch or an I/O address",
    "it is taken for a read", SIM + '''
a = on(new())
a.memory[0xc00d] = 0
assert a.memory[0xc01f] == 0x80
a.memory[0xc00c] = 0
assert a.memory[0xc01f] == 0
a.memory[0xc053] = 0
assert a.memory[0xc01b] == 0x80
try:
    a.memory[0xc01b] = 0
except machine.TrapException as e:
    assert e.msg == machine.AccessMode.WRITE, e.msg
else:
    assert 0
''')

bug("switch-mirrored", "C31",
    [("simulator/machine.py",
      """        def _get(mode, value):
            return self.get()
""",
      """        def _get(mode, value):
            return self.get()

        if self.mode == AccessMode.RW and not self.callback:
            # Each pair of addresses is decoded on A0 alone
            io_map.setdefault(self.set_addr ^ 0x08, (
                self.mode, "%s ON" % self.name, _set))
""")],
    "accesses to the addresses eight away from those of a display switch",
    "an address that is not mapped operates a switch instead of being trapped",
    SIM + '''
a = on(new())
for addr in (0xc059, 0xc05b, 0xc05d, 0xc05f):
    for write in (False, True):
        try:
            if write:
                a.memory[addr] = 1
            else:
                a.memory[addr]
        except machine.TrapException as e:
            assert e.address == addr
        else:
            assert 0, hex(addr)
''')

bug("stale-programme", "C34",
    [("simulator/simulator.py",
      """    p = subprocess.run(cmd.split())
    if p.returncode:
        sys.exit(1)
""",
      """    if not os.path.exists("ethernet/ethernet/ethernet.bin"):
        p = subprocess.run(cmd.split())
        if p.returncode:
            sys.exit(1)
"""),
     ("simulator/simulator.py", "import subprocess\n",
      "import os\nimport subprocess\n")],
    "a programme extracted by an earlier run",
    "the earlier programme is run", BOOT + '''
mk = os.mkdir


def left(p, *a):
    """An extracted programme is lying around."""
    mk(p, *a)
    if p == "simulator":
        os.makedirs("ethernet/ethernet")
        with open("ethernet/ethernet/ethernet.bin", "wb") as f:
            f.write(b"\\xea" * 300)


os.mkdir = left
c = bytes(1 + i * 11 % 253 for i in range(1000))
code, seen = boot(c)
os.mkdir = mk
assert code is None and len(seen) == 1
pc, mem = seen[0]
assert pc == 0x8000 and mem[0x8000:0x8000 + 1000] == c
''')

# --- player -----------------------------------------------------------------
bug("player-mixed-left", "C08",
    [("player/main.s", "    STA HIRESON\n    STA FULLSCR\n",
      "    STA HIRESON\n    STA HIRESON\n")],
    "a machine that shows mixed graphics and text when the player is started",
    "the lowest 32 rows of the picture stay text", P + '''
image, sym = build()
s = stream(sym, [(36, 40, 1, (1, 2, 3, 4))] * 50, end=False)
m = run(image, sym, s, 600000)
assert m.sw["text"] == 0 and m.sw["mixed"] == 0, m.sw
''')

bug("player-nop-x", "C04",
    [("player/main.s",
      """    LDY WDATA ; 4
    STY @D+2 ; 4
    LDY WDATA ; 4
    STY @D+1 ; 4
@D:
    JMP op_nop ; 3 ; 23""",
      """    LDY WDATA ; 4
    STY @D+2 ; 4
    LDX WDATA ; 4
    STX @D+1 ; 4
@D:
    JMP op_nop ; 3 ; 23""")],
    "a 2 KB frame that begins with an operation that relies on X being zero "
    "(width 6, ...)", "the jump address is patched in the wrong place", P + '''
image, sym = build()
o = (1, 2, 3, 4)
for w in (4, 6, 8, 20, 36, 60, 66):
    ops = [(4, 40, 1, o)] * 291 + [(w, 41, 2, o), (8, 33, 2, o)]
    s = stream(sym, ops)
    names = [sym["op_tick_%d_page_%d" % (a, p)] for a, p, _, _ in ops]
    m = run(image, sym, s, 1500000, watch=tuple(set(names)))
    got = [e[2] for e in of(m, a2.OP)]
    assert got == names, w
''')

bug("player-crosses-page", "C07",
    [("player/main.s",
      """; This is the main audio/video decode loop.
;
""",
      """    JMP checkrecv
    .res 180, 0 ; room for a dispatch table

; This is the main audio/video decode loop.
;
""")],
    "the branch of the slow path lies across the end of a memory page",
    "the slow path takes a cycle more", P + '''
image, sym = build()
o = (1, 2, 3, 4)
s = stream(sym, [(36, 40, 1, o)] * 1200)
m = run(image, sym, s, 1500000, watch=(sym["op_tick_36_page_40"],))
t = [e[0] for e in of(m, a2.OP)]
for a, b in zip(t, t[1:]):
    assert b - a in (73, 146 + 73), b - a
''')
