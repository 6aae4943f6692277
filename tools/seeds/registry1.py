from mk import bug, T, S, P, M, ENC

bug("limit-on-boundary", "C01",
    [("transcoder/movie.py",
      "self.stream_pos >= self.max_bytes_out:",
      "self.stream_pos > self.max_bytes_out:")],
    "an output size limit that falls exactly on an operation boundary",
    "an operation is emitted that starts at the limit",
    M + '''
import movie, opcodes, machine
from video_mode import VideoMode

def run(limit, n):
    m = movie.Movie.__new__(movie.Movie)
    m.max_bytes_out = limit
    m.video_mode = VideoMode.HGR
    m.stream_pos = 0
    m.aux_memory_bank = False
    m.state = machine.Machine()
    ops = [opcodes.Header(mode=VideoMode.HGR)] + [
        opcodes.TICK_OPCODES[(4, 32)](i, (1, 2, 3, 4)) for i in range(n)]
    return list(m.emit_stream(iter(ops)))

term = opcodes.Terminate._START
for k in (1, 2, 5):
    s = run(7 * k, 40)
    assert s[7 * k] << 8 | s[7 * k + 1] == term, (k, s[:60])
''')

bug("equal-any-order", "C02",
    [("transcoder/opcodes.py",
      "return self.content == other.content and self.offsets == other.offsets",
      "return (self.content == other.content and\n"
      "                sorted(self.offsets) == sorted(other.offsets))")],
    "two operations with the same offsets in different order",
    "operations that are encoded to different bytes compare equal",
    T + '''
import opcodes
op = opcodes.TICK_OPCODES[(4, 33)]
assert op(5, (1, 2, 3, 4)) == op(5, (1, 2, 3, 4))
assert op(5, (1, 2, 3, 4)) != op(5, (2, 1, 3, 4))
assert op(5, (1, 2, 3, 4)) != op(5, (1, 2, 3, 5))
''')

bug("headers-all-equal", "C02",
    [("transcoder/opcodes.py",
      "return self.video_mode == other.video_mode",
      "return True")],
    "headers of different video modes",
    "headers that are encoded to different bytes compare equal",
    T + '''
import opcodes
from video_mode import VideoMode
assert opcodes.Header(VideoMode.HGR) == opcodes.Header(VideoMode.HGR)
assert opcodes.Header(VideoMode.HGR) != opcodes.Header(VideoMode.DHGR)
''')

bug("player-46-store-x", "C03",
    [("player/main.s",
      """    STA page << 8,Y ; 5
    LDY WDATA ; 4
    STA page << 8,Y ; 5
    NOP ; 2
    STA TICK ; 4

    JMP .ident(.concat("_op_tick_page_", .string(page), "_tail_20"))
""",
      """    STA page << 8,Y ; 5
    LDY WDATA ; 4
    STA page << 8,X ; 5
    NOP ; 2
    STA TICK ; 4

    JMP .ident(.concat("_op_tick_page_", .string(page), "_tail_20"))
""")],
    "an operation of width 46 whose fourth offset is not 0 and not one of "
    "the others",
    "the fourth byte is stored at offset 0",
    P + '''
image, sym = build()
for w in (44, 46, 48):
    s = stream(sym, [(w, 45, 0x3c, (7, 9, 11, 13))])
    m = run(image, sym, s, 400000)
    got = [(e[2], e[3]) for e in of(m, a2.SCREEN)]
    assert got == [(45 * 256 + o, 0x3c) for o in (7, 9, 11, 13)], (w, got)
''')

bug("player-50-wrong-tail", "C05",
    [("player/main.s",
      """    NOP ; 2
    STA TICK ; 4

    JMP .ident(.concat("_op_tick_page_", .string(page), "_tail_16"))
""",
      """    NOP ; 2
    STA TICK ; 4

    JMP .ident(.concat("_op_tick_page_", .string(page), "_tail_15"))
""")],
    "an operation of width 50",
    "it takes 72 cycles",
    P + '''
image, sym = build()
for w in (48, 50, 52):
    s = stream(sym, [(w, 45, 0x3c, (7, 9, 11, 13))] * 3)
    m = run(image, sym, s, 400000, watch=[sym["op_tick_%d_page_45" % w]])
    ev = of(m, a2.OP, a2.TICK)
    i = [i for i, e in enumerate(ev) if e[1] == a2.OP]
    t = [ev[k + 1][0] for k in i]
    assert [b - a for a, b in zip(t, t[1:])] == [73, 73], (w, t)
    assert ev[i[0] + 2][0] - t[0] == w
''')

bug("player-16-leaves-x", "C04",
    [("player/main.s",
      """    STA page << 8,x ; 5
    LDX #$00 ; 2 restore X=0 invariant
""",
      """    STA page << 8,x ; 5
    CPX #$00 ; 2 restore X=0 invariant
""")],
    "an operation of width 16 followed by one of a width whose routine "
    "relies on X being zero (6, ...)",
    "the jump address is patched in the wrong place",
    P + '''
image, sym = build()
o = (1, 2, 3, 4)

def check(ops):
    s = stream(sym, ops)
    names = [sym["op_tick_%d_page_%d" % (w, p)] for w, p, _, _ in ops]
    m = run(image, sym, s, 400000, watch=tuple(names))
    got = [e[2] for e in of(m, a2.OP)]
    assert got == names, (ops, got)
    x = [e[3] for e in of(m, a2.OP)]
    assert not any(x), (ops, x)

check([(6, 40, 1, o)] * 3)
check([(16, 40, 1, (9, 0, 7, 5)), (6, 41, 2, o), (8, 33, 2, o)])
check([(18, 40, 1, (9, 3, 7, 5)), (60, 41, 2, o), (16, 63, 2, o)] * 3)
''')


bug("player-early-frame", "C06",
    [("player/main.s",
      "    CMP #$08        ; 2 expect at least 2k\n",
      "    CMP #$07        ; 2 expect at least 2k\n")],
    "network data arriving so that between 1792 and 2047 bytes are waiting "
    "when the player looks",
    "bytes are consumed before they have been received",
    P + '''
image, sym = build()
ops = [(36, 32 + i % 32, i % 256, (i % 256, 1, 2, 3)) for i in range(292 * 3)]
s = stream(sym, ops)
# a full frame, then a trickle
t = 400000
arr = [(0, 2048), (t, 2048 + 1900), (t + 300000, len(s))]
m = run(image, sym, s, 2500000, arrivals=arr)
n = 0
for c, k, a, v in of(m, a2.RX):
    assert a >> 16 > n, "byte %d read when %d had arrived" % (n, a >> 16)
    n += 1
assert n > 6000, n
''')

bug("player-ack-dummy", "C07",
    [("player/main.s",
      """    NOP ; 2
    STA dummy ; 4
    STA dummy ; 4
    STA dummy ; 4
""",
      """    NOP ; 2
    STA dummy ; 4
    NOP ; 2
    NOP ; 2
    NOP ; 2
    STA dummy ; 4
""")],
    "a frame boundary with data already available",
    "the slow path takes longer than two operation periods",
    P + '''
image, sym = build()
ops = [(36, 32 + i % 32, i % 256, (i % 256, 1, 2, 3)) for i in range(700)]
s = stream(sym, ops)
watch = [sym["op_ack"]] + [sym["op_tick_36_page_%d" % p]
                           for p in range(32, 64)]
m = run(image, sym, s, 1500000, watch=watch)
ev = of(m, a2.OP, a2.TICK)
seen = 0
for i, e in enumerate(ev):
    if e[1] == a2.OP and e[2] == sym["op_ack"]:
        t = []
        j = i + 1
        while ev[j][1] != a2.OP:
            t.append(ev[j][0])
            j += 1
        nxt = ev[j + 1][0]
        assert nxt - t[0] == 146, (nxt - t[0], t)
        d = [b - a for a, b in zip(t, t[1:] + [nxt])]
        assert all(34 <= x <= 39 for x in d), d
        seen += 1
assert seen >= 2
''')

bug("player-fewer-retries", "C08",
    [("player/main.s",
      "    LDA   #6    ; 5 RETRIES TO GET CONNECTION\n",
      "    LDA   #5    ; 5 RETRIES TO GET CONNECTION\n")],
    "a server that refuses the connection five times",
    "the player gives up one attempt early",
    P + '''
image, sym = build()
s = stream(sym, [(36, 40, 1, (1, 2, 3, 4))])
m = run(image, sym, s, 2000000, connects=[(3, 0x13, 0)] * 5 +
        [(3, 0x13, 0x17)])
assert m.card.ncon == 6, m.card.ncon
assert len(of(m, a2.RX)) >= 7
m = run(image, sym, s, 2000000, connects=[(3, 0x13, 0)])
assert m.card.ncon == 6 and m.why == "brk", (m.card.ncon, m.why)
''')

bug("player-header-too-soon", "C08",
    [("player/main.s",
      "    CMP #$01        ; expect at least 256 bytes\n",
      "    CMP #$00        ; expect at least 256 bytes\n")],
    "a server that is slow to send its first bytes",
    "the header is read before it arrives, so the mode is wrong and the "
    "stream is out of step",
    P + '''
image, sym = build()
ops = [(36, 40, 1, (1, 2, 3, 4))] * 20
s = stream(sym, ops, mode=1)
m = run(image, sym, s, 2000000, arrivals=[(60000, len(s))])
n = 0
for c, k, a, v in of(m, a2.RX):
    assert a >> 16 > n, "byte %d read when %d had arrived" % (n, a >> 16)
    n += 1
assert m.sw["dhires"] == 1
''')

bug("player-aux-left-on", "C08",
    [("player/main.s",
      "    STA PAGE2OFF ; MAIN memory active\n",
      "    STA PAGE2ON  ; MAIN memory active\n")],
    "double hi-res, stores before the first ACK",
    "the first frame's stores go to auxiliary memory",
    P + '''
image, sym = build()
ops = [(36, 40, 0x55, (1, 2, 3, 4))] * 20
s = stream(sym, ops, mode=1)
m = run(image, sym, s, 2000000, aux_fill=0x7f)
assert m.ram[40 * 256 + 2] == 0x55
assert m.aux[40 * 256 + 2] == 0
''')

bug("player-pause-latched", "C09",
    [("player/main.s",
      """@1: BIT KBD
    BPL @1
    BIT KBDSTRB ; clear strobe
""",
      """@1: BIT KBD
    BPL @1
    BIT KBD     ; clear strobe
""")],
    "a pause and resume with at least one more frame to come",
    "the key that resumed playback pauses it again at the next frame, for "
    "good",
    P + '''
image, sym = build()
ops = [(36, 40, i % 256, (1, 2, 3, i % 256)) for i in range(292 * 4)]
s = stream(sym, ops)
base = run(image, sym, s, 4000000)
n = len(of(base, a2.RX))
assert of(base, a2.RX)[2100][0] > 185000 > of(base, a2.RX)[0][0]
m = run(image, sym, s, 6000000, keys=[185000, 700000])
assert len(of(m, a2.RX)) == n, (len(of(m, a2.RX)), n)
assert m.ram[0x2800:0x2900] == base.ram[0x2800:0x2900]
''')

bug("player-powerup-byte", "C09",
    [("player/main.s",
      "    INC  RESET_VECTOR+2  ; Invalidate power-up byte\n",
      "    LDA  RESET_VECTOR+2  ; Invalidate power-up byte\n")],
    "quitting to ProDOS and resetting later",
    "the reset vector into the player's memory stays valid after it quit",
    P + '''
image, sym = build()
s = stream(sym, [(36, 40, 1, (1, 2, 3, 4))] * 20)
m = run(image, sym, s, 3000000, keys=[1500000])
assert m.why == "mli", m.why
assert m.ram[0x3f4] != m.ram[0x3f3] ^ 0xa5
''')
