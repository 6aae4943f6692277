from hypothesis import strategies as st

from .. import core

PLAIN_REG = [*range(0x1, 0x13), 0x1a, 0x1b, 0x403, 0x404, 0x405,
             *range(0x40c, 0x412), *range(0x426, 0x42a)]
EDGE = [0x7ffe, 0x7fff, 0x5fff, 0x6000, 0x4000, 0x3fff, 0x00ff, 0x0100,
        0x01ff, 0x2000, 0x30, 0x3ff, 0x800, 0x7ff, 0x7f00, 0x5ffe, 0xff0]
WMODE, WADRH, WADRL, WDATA = range(4)


def memory(a):
    return 0x30 <= a < 0x400 or a >= 0x800


def kind(a):
    """What a data access at card address a does."""
    if memory(a) or a in PLAIN_REG:
        return "plain"
    return {0: "mode", 0x400: "smode", 0x401: "command"}.get(a, "unknown")


def pointer():
    return st.one_of(
        st.sampled_from(PLAIN_REG), st.sampled_from(EDGE),
        st.integers(0x30, 0x3ff), st.integers(0x800, 0x7fff),
        st.sampled_from([0, 0x400, 0x401, 0x402, 0x403]))


def byte():
    return st.one_of(st.integers(0, 255), st.sampled_from([0, 0x7f, 0x80,
                                                           255]))


@st.composite
def case(draw):
    ops = []
    ptrs = draw(st.lists(pointer(), min_size=1, max_size=5))
    for _ in range(draw(st.integers(1, 20))):
        cpu = draw(st.booleans())
        k = draw(st.sampled_from(["ptr", "ptr", "ptr", "hi", "lo", "write",
                                  "write", "read", "read", "mode", "cmd"]))
        if k == "ptr":
            p = draw(st.one_of(st.sampled_from(ptrs), pointer()))
            two = [[WADRH, p >> 8, cpu], [WADRL, p & 255, cpu]]
            if draw(st.booleans()):
                two.reverse()
            ops += two
        elif k == "hi":
            ops.append([WADRH, draw(st.one_of(
                st.integers(0, 127), st.sampled_from(ptrs).map(
                    lambda p: p >> 8))), cpu])
        elif k == "lo":
            ops.append([WADRL, draw(byte()), cpu])
        elif k == "write":
            ops += [[WDATA, v, cpu] for v in draw(st.lists(
                byte(), min_size=1, max_size=8))]
        elif k == "read":
            ops += [[WDATA, None, cpu]] * draw(st.integers(1, 8))
        elif k == "mode":
            ops.append([WMODE, draw(st.one_of(st.none(),
                                              st.integers(0, 3))), cpu])
        else:
            ops += [[WADRH, 4, cpu], [WADRL, 1, cpu],
                    [WDATA, draw(st.one_of(
                        st.sampled_from([1, 4, 2, 8, 0x10, 0x20]),
                        st.integers(0, 255))), cpu]]
            ops += [[WADRH, 4, cpu], [WADRL, 3, cpu], [WDATA, None, cpu]]
    return {"ops": ops}


class C32(core.Prop):
    id = "C32"
    profile = "sim"
    technique = ("stateful property-based testing of generated register "
                 "accesses, directly and by executed instructions, against "
                 "a model memory with a pointer")
    rule = ("sequences of pointer halves, data bursts, mode and socket "
            "commands over the 32 KB space, biased to edges; everything "
            "written is read back at the end; non-trivial: 4 or more bytes "
            "read back that had been written")
    budget = {"quick": (800, 30, 8), "thorough": (20000, 300, 8)}
    assumptions = (
        "pointers stay below $8000; what a refused access (unmapped or "
        "unimplemented register) does to the pointer is not judged",
    )

    def enumerate(self, tier):
        # write and read all of the memory in one go
        for a, b in ((0x30, 0x400), (0x800, 0x8000)):
            for s in range(a, b, 0x1000):
                n = min(b - s, 0x1000)
                p = [[WADRH, s >> 8, False], [WADRL, s & 255, False]]
                yield {"ops": p + [[WDATA, (i * 7 + (i >> 8)) & 255, False]
                                   for i in range(n)] + p +
                       [[WDATA, None, False]] * n}
        yield {"ops": [[WADRH, 0x7f, False], [WADRL, 0xff, False]] +
               [[WDATA, v, False] for v in (9, 2, 1, 2, 3)] +
               [[WMODE, None, False]]}

    def strategy(self, tier):
        return case()

    def run(self, case, ctx):
        ops = [list(o) for o in case["ops"]]
        # keep to what the card accepts, and read everything back
        mem = {}
        hi = lo = 0
        plan = []           # what to expect of each
        out_ops = []
        expect_n = 0
        i = 0
        touched = []
        tail = False
        while True:
            if i == len(ops):
                if tail:
                    break
                tail = True
                for a in dict.fromkeys(touched[:60]):
                    ops += [[WADRH, a >> 8, False], [WADRL, a & 255, False],
                            [WDATA, None, False]]
                ops += [[WMODE, None, False]]
                continue
            reg, v, cpu = ops[i]
            i += 1
            p = None if hi is None or lo is None else hi << 8 | lo
            if reg == WADRH:
                hi = v
                plan.append(("none",))
            elif reg == WADRL:
                lo = v
                plan.append(("none",))
            elif reg == WMODE:
                if v is None:
                    plan.append(("value", mem.get(0, 0), 0))
                else:
                    mem[0] = v
                    plan.append(("none",))
            else:
                if p is None:
                    plan.append(("any",))
                    out_ops.append((reg, v, cpu))
                    mem.clear()
                    mem["lost"] = True
                    continue
                k = kind(p)
                if v is not None and k == "mode":
                    v &= 3
                elif v is not None and k == "smode":
                    v = 0x21
                elif v == 0x40 and k == "command":
                    v = 0x41
                if k == "unknown":
                    # leave it alone: move on instead
                    hi, lo = 0x60, 0
                    out_ops += [(WADRH, hi, cpu), (WADRL, lo, cpu)]
                    plan += [("none",)] * 2
                    p = 0x6000
                    k = "plain"
                if v is None:
                    plan.append(("value", mem.get(p, 0), p))
                    expect_n += p in mem
                else:
                    mem[p] = v
                    if len(touched) < 60:
                        touched.append(p)
                    if k == "command":
                        if v == 1:
                            mem[0x403] = 0x13
                        elif v == 4:
                            mem[0x403] = 0x17
                    plan.append(("none",))
                p = (p + 1) & 0x7fff
                hi, lo = p >> 8, p & 255
            out_ops.append((reg, v, cpu))
        out = ctx.call("card", ops=out_ops)
        names = ["WMODE", "WADRH", "WADRL", "WDATA"]
        for j, (op, want, r) in enumerate(zip(out_ops, plan, out)):
            core.check(r[0] == "ok", "access %d (%s %r) gives %r" % (
                j, names[op[0]], op[1], r), "refused")
            if want[0] == "value":
                core.check(r[1] == want[1], "access %d (%s) reads $%02x, "
                           "card address $%04x holds $%02x" % (
                               j, names[op[0]], r[1], want[2], want[1]),
                           "value")
        return dict(nontrivial=expect_n >= 4, n=len(out_ops))


PROP = C32()
