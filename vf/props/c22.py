import numpy as np
from hypothesis import strategies as st

from .. import core

SHAPES_FLAT_BAD = [[8191], [8193], [32, 256], [1, 8192], [0], [256, 32]]
SHAPES_PAGED_BAD = [[8192], [31, 256], [32, 255], [256, 32], [33, 256],
                    [32, 256, 1], [0]]


@st.composite
def case(draw):
    ops = []
    slots = {}          # slot -> (kind, hires page, memory id)
    n = 0
    for _ in range(draw(st.integers(1, 25))):
        kinds = ["new", "new", "bad"]
        if slots:
            kinds = ["new", "bad", "conv", "conv", "write", "write", "write",
                     "write", "edge", "edge"]
        k = draw(st.sampled_from(kinds))
        s = draw(st.integers(0, 4))
        if k == "new":
            kind = draw(st.sampled_from(["flat", "paged"]))
            pg = draw(st.sampled_from([1, 2]))
            seed = draw(st.one_of(st.none(), st.integers(0, 2**16)))
            ops.append([kind, s, pg, seed, None])
            slots[s] = (kind, pg)
        elif k == "bad":
            kind = draw(st.sampled_from(["flat", "paged"]))
            if draw(st.booleans()):
                pg = draw(st.sampled_from([0, 3, -1, 4, 32, 64, 8192]))
                shape = None
                seed = draw(st.one_of(st.none(), st.integers(0, 9)))
            else:
                pg = draw(st.sampled_from([1, 2]))
                seed = draw(st.integers(0, 9))
                shape = draw(st.sampled_from(
                    SHAPES_FLAT_BAD if kind == "flat" else SHAPES_PAGED_BAD))
            ops.append([kind, s, pg, seed, shape, "bad"])
        else:
            f = draw(st.sampled_from(sorted(slots)))
            kind, pg = slots[f]
            if k == "conv":
                ops.append(["toflat" if kind == "paged" else "topaged", f, s])
                slots[s] = ("flat" if kind == "paged" else "paged", pg)
                continue
            a = draw(st.one_of(
                st.integers(0, 8191), st.integers(0, 31).map(
                    lambda p: p * 256), st.sampled_from(
                    [0, 8191, 255, 256, 7936, 4095, 4096, 0x28, 0x78])))
            v = draw(st.integers(0, 255))
            if k == "write":
                if kind == "flat":
                    ops.append(["write", f, pg * 8192 + a, v])
                else:
                    ops.append(["write", f, pg * 32 + (a >> 8), a & 255, v])
            elif kind == "flat":
                d = draw(st.one_of(st.sampled_from([0, 1, 255, 256]),
                                   st.integers(0, 70000)))
                b = pg * 8192
                addr = draw(st.sampled_from([b - 1 - d, b + 8192 + d]))
                ops.append(["write", f, addr, v, "bad"])
            else:
                if draw(st.booleans()):
                    p = pg * 32 + 32 + draw(st.sampled_from([0, 1, 31, 32,
                                                             200]))
                    o = a & 255
                else:
                    p = pg * 32 + (a >> 8)
                    o = 256 + draw(st.sampled_from([0, 1, 255, 7000]))
                ops.append(["write", f, p, o, v, "bad"])
    return {"ops": ops}


def raw(seed, shape):
    n = int(np.prod(shape)) if shape else 8192
    return np.random.RandomState(seed).randint(
        0, 256, n).astype(np.uint8).tobytes()


class C22(core.Prop):
    id = "C22"
    profile = "model"
    technique = ("stateful model-based testing of memory view histories vs. "
                 "a byte-array model")
    rule = ("histories of up to 25 constructions, conversions, writes and "
            "rejected requests over five view slots; non-trivial: a write "
            "through a view that shares its memory with another, or a "
            "rejected request")
    budget = {"quick": (250, 40, 8), "thorough": (20000, 300, 8)}
    assumptions = (
        "negative page numbers and page numbers below the first page are "
        "outside the domain: Bitmap.apply itself uses them to mean 'counted "
        "from the start of the screen page'",)

    def strategy(self, tier):
        return case()

    def run(self, case, ctx):
        ops = []
        for op in case["ops"]:
            op = [x for x in op if x != "bad"]
            if op[0] in ("flat", "paged"):
                k, s, pg, seed, shape = op
                if seed is not None and shape is None:
                    shape = [8192] if k == "flat" else [32, 256]
                op = (k, s, pg, None if seed is None else raw(seed, shape),
                      tuple(shape) if shape else None)
            ops.append(tuple(op))
        got = ctx.call("views", ops=ops)
        mem = {}        # slot -> (kind, page, bytearray)
        shared = False
        bad = False
        for op, full, (res, st_) in zip(case["ops"], ops, got):
            if op[-1] == "bad":
                bad = True
                core.check(res != "ok", "%r was not rejected" % (op,),
                           "accepted")
                if op[0] != "write" or len(op) == 5:
                    # construction and flat writes say why
                    core.check(res == "ValueError", "%r was rejected with %s"
                               % (op, res), "error-kind")
            else:
                core.check(res == "ok", "%r failed with %s" % (op, res),
                           "rejected")
                if op[0] in ("flat", "paged"):
                    mem[op[1]] = (op[0], op[2], bytearray(
                        full[3] if full[3] is not None else bytes(8192)))
                elif op[0] in ("toflat", "topaged"):
                    k, pg, m = mem[op[1]]
                    mem[op[2]] = (op[0][2:], pg, m)
                else:
                    k, pg, m = mem[op[1]]
                    if k == "flat":
                        m[op[2] - pg * 8192] = op[3]
                    else:
                        m[(op[2] - pg * 32) * 256 + op[3]] = op[4]
                    if sum(x[2] is m for x in mem.values()) > 1:
                        shared = True
            core.check(set(st_) == set(mem), "views %r" % sorted(st_),
                       "slots")
            for s, (k, pg, m) in mem.items():
                name, page, shape, data = st_[s]
                core.check(name == ("FlatMemoryMap" if k == "flat" else
                                    "MemoryMap") and page == pg and
                           shape == ([8192] if k == "flat" else [32, 256]),
                           "after %r view %d is %s of page %d, shape %r" % (
                               op, s, name, page, shape), "kind")
                if data != bytes(m):
                    i = next(i for i in range(8192) if data[i] != m[i])
                    raise core.Violation(
                        "after %r view %d (%s) holds $%02x at +$%04x, should "
                        "be $%02x" % (op, s, k, data[i], i, m[i]),
                        "contents")
        return dict(nontrivial=shared or bad, n=len(ops), tags=[
            x for x, y in (("shared", shared), ("rejected", bad)) if y])


PROP = C22()
