import random

from hypothesis import strategies as st

from .. import core
from . import c33

LOAD = 0x8000
RAM = [0x00, 0x10, 0x35, 0x38, 0xff, 0x200, 0x400, 0x7ff, 0x800, 0x1fff,
       0x2000, 0x2fff, 0x3000, 0x6000, 0x7fff, 0xbfff, 0xc800, 0xcfff]
SHUT = [0x4000, 0x4fff, 0xc100, 0xc600, 0xc6ff, 0xc7ff, 0xd000, 0xf3e2,
        0xfffe, 0xffff]
SRC = [0xc600, 0xc601, 0xc6fe, 0xc6ff, 0xd000, 0xdfff, 0xe000, 0xf000,
       0xfded, 0xfffa, 0xfffb, 0xfffc, 0xfffd, 0xfffe, 0xffff, 0x36, 0x37,
       0x8000, 0x5000, 0xc700]


# statuses of a failed extraction: errors, and ended by a signal
FAILS = [1, 2, 3, 127, 128, 130, 255, -1, -2, -9, -15]


@st.composite
def case(draw):
    src = st.one_of(st.sampled_from(SRC), st.integers(0xd000, 0xffff),
                    st.integers(0xc600, 0xc6ff))
    dst = st.sampled_from(RAM)
    copies = draw(st.lists(st.tuples(src, dst).map(list), max_size=10))
    if draw(st.integers(0, 4)) == 0:
        copies.append([draw(src), draw(st.sampled_from(SHUT))])
    return {"seed": draw(st.integers(0, 10 ** 6)), "copies": copies,
            "vector": draw(st.integers(0xd000, 0xffff)),
            "end": draw(st.sampled_from(["stop", "stop", "brk", "cout"])),
            "tail": draw(st.one_of(st.integers(0, 300), st.sampled_from(
                [0x3f00, 0x3eff]))),
            "stream": draw(st.integers(0, 5000)),
            "fail": draw(st.sampled_from(FAILS)) if
            draw(st.integers(0, 9)) == 0 else 0,
            "stale": draw(st.booleans()),
            "left": draw(st.sampled_from([None, None, 0, 1, 700]))}


class C34(core.Prop):
    id = "C34"
    profile = "sim"
    technique = ("generated ROM images and programmes started by the "
                 "simulator's main program, against a model of the machine "
                 "after loading and of the programme's run")
    rule = ("random 32 KB ROM images, a random break vector, programmes of up "
            "to 16 KB that copy bytes of the ROM and of themselves to RAM and "
            "protected memory and end in a loop, a BRK or a ROM call; failing "
            "extraction with all kinds of status, leaving a file or not, with "
            "or without a programme extracted by an earlier run; "
            "non-trivial: the programme read the ROM, or was stopped")
    budget = {"quick": (150, 25, 8), "thorough": (3000, 200, 8)}
    assumptions = ("a stand-in for AppleCommander",)

    def enumerate(self, tier):
        b = {"seed": 1, "copies": [], "vector": 0xfa40, "end": "stop",
             "tail": 9, "stream": 100, "fail": 0, "stale": False,
             "left": None}
        for e in ("stop", "brk", "cout"):
            yield dict(b, end=e)
            yield dict(b, end=e, copies=[[x, 0x6000 + i] for i, x in
                                         enumerate(SRC)])
        for x in SHUT:
            yield dict(b, copies=[[0xffff, x]])
        for v in (0xd000, 0xfeff, 0xff00, 0xffff):
            yield dict(b, end="brk", vector=v, seed=v)
        for f in FAILS:
            yield dict(b, fail=f)
            yield dict(b, fail=f, stale=True)
            yield dict(b, fail=f, left=300)
        for n in (0, 5, 5000):
            yield dict(b, left=n, copies=[[0xd000, 0x6000]])

    def strategy(self, tier):
        return case()

    def run(self, case, ctx):
        r = random.Random(case["seed"])
        rom = bytearray(r.getrandbits(8) for _ in range(0x8000))
        rom[0x7ffe:] = [case["vector"] & 255, case["vector"] >> 8]
        rom[0xfded - 0x8000] = 0x60
        stream = bytes(r.getrandbits(8) for _ in range(case["stream"]))
        code = bytearray()
        for s, d in case["copies"]:
            code += bytes([0xad, s & 255, s >> 8, 0x8d, d & 255, d >> 8])
        at = LOAD + len(code)
        if case["end"] == "brk":
            code += b"\0"
        else:
            if case["end"] == "cout":
                code += bytes([0x20, 0xed, 0xfd])
                at += 3
            code += bytes([0x4c, at & 255, at >> 8])
        tail = min(case["tail"], 0x4000 - len(code))
        code += bytes(r.getrandbits(8) for _ in range(tail))
        left = case.get("left")
        if left is not None:
            # as an earlier run extracted it: stores $EE and loops
            left = (bytes([0xa9, 0xee, 0x8d, 0, 0x60, 0x4c, 5, 0x80]) +
                    bytes(left))[:max(left, 8)]
        # programme's model
        mem = bytearray(65536)
        mem[0xc600:0xc700] = rom[0x600:0x700]
        mem[0xd000:] = rom[0x5000:]
        mem[LOAD:LOAD + len(code)] = code
        mem[0x36:0x38] = b"\xf0\xfd"
        want, trail, seen = ["ok", ("end", None)], [], 0
        pc = LOAD
        for s, d in case["copies"]:
            trail += [pc, pc + 3]
            k = c33.region(d)
            seen += s >= 0xc600
            if k is not None and not c33.APPLE[k][3]:
                want = ["protected", d, mem[s]]
                break
            if LOAD <= d < LOAD + len(code):
                return dict(nontrivial=False, tags=["changes itself"])
            mem[d] = mem[s]
            pc += 6
        else:
            if case["end"] == "brk":
                trail.append(pc)
                # a handler that is a known entry point would be entered
                if case["vector"] in c33.ENTRY:
                    return dict(nontrivial=False, tags=["entry point"])
                want = ["entry", pc, case["vector"]]
            else:
                if case["end"] == "cout":
                    trail += [pc, 0xfded]
                trail.append(at)
        got, ran, end, called = ctx.call(
            "boot", rom=bytes(rom), stream=stream, code=bytes(code),
            fail=case["fail"], stale=case["stale"],
            left=left, limit=200)
        core.check(any("ethernet" in a for a in called), "the programme was "
                   "not extracted: %r" % (called,), "extract")
        if case["fail"]:
            core.check(got[0] == "ok" and got[1][0] == "exit" and
                       got[1][1] != 0, "extraction failed, ended by %r" %
                       (got,), "exit")
            core.check(not ran, "extraction failed, %d instructions were "
                       "executed" % len(ran), "ran")
            return dict(nontrivial=True, tags=["extraction fails"], n=1)
        if want[0] == "ok":
            core.check(got[0] == "ok" and tuple(got[1]) == want[1],
                       "ended by %r, should have run to the end" % (got,),
                       "outcome")
        else:
            core.check(got[:3] == want, "ended by %r, should be %r" % (
                got, want), "outcome")
        core.check(ran == trail, "instructions executed at %r, should be %r" %
                   (ran[:30], trail[:30]), "trail")
        bad = [a for a in range(65536) if not 0x100 <= a <= 0x1ff and
               end[a] != mem[a]]
        core.check(not bad, "%d bytes of memory differ, first $%04x: $%02x, "
                   "should be $%02x" % (len(bad), bad[0] if bad else 0,
                                        end[bad[0]] if bad else 0,
                                        mem[bad[0]] if bad else 0), "memory")
        return dict(nontrivial=seen > 0 or want[0] != "ok", n=len(ran),
                    tags=[case["end"], want[0]])


PROP = C34()
