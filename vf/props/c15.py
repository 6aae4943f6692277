import numpy as np
from hypothesis import strategies as st

from .. import core, enc


def screens(mode, pages):
    return st.lists(enc.paint(mode, pages), max_size=5)


@st.composite
def case(draw, nmax):
    mode = draw(st.sampled_from(["HGR", "DHGR"]))
    pages = draw(st.lists(enc.page_st(), min_size=1, max_size=2))
    init = draw(screens(mode, pages))
    # updates cluster on neighbouring columns
    centre = draw(st.one_of(st.sampled_from(enc.EDGE_OFF),
                            st.integers(0, 255)))
    off = st.one_of(
        st.integers(max(0, centre - 4), min(255, centre + 4)),
        st.sampled_from([0, 1, 2, 3, 252, 253, 254, 255]),
        st.integers(0, 255))
    ups = draw(st.lists(st.tuples(
        st.sampled_from(pages), off,
        st.integers(0, 1 if mode == "DHGR" else 0),
        st.one_of(st.sampled_from([0, 0x7f, 0x80, 0xff, 1, 0x40, 0x60, 0x81,
                                   3, 0x83]),
                  st.integers(0, 255))).map(list),
        min_size=1, max_size=nmax))
    return {"mode": mode, "init": init, "ups": ups}


class C15(core.Prop):
    id = "C15"
    profile = "encoder"
    technique = ("property-based testing: update histories vs. from-scratch "
                 "recomputation and a byte model")
    rule = ("initial screens and histories of single-byte updates clustered "
            "on neighbouring columns and page edges; non-trivial: 3 or more "
            "updates of which two hit adjacent columns of one page")
    budget = {"quick": (250, 35, 8), "thorough": (20000, 400, 8)}

    def strategy(self, tier):
        return case(24 if tier == "quick" else 80)

    def run(self, case, ctx):
        mode = case["mode"]
        c = enc.Canvas(mode)
        for op in case["init"]:
            c.apply(op, holes=True)
        main, aux = c.raw()
        ups = [tuple(u) for u in case["ups"]]
        # every update is checked in short histories
        every = 1 if len(ups) <= 12 else 5
        res = ctx.call("bitmap_updates", mode=mode, pal="NTSC", main=main,
                       aux=aux, updates=ups, every=every)
        m = [bytearray(main), bytearray(aux) if aux is not None else None]
        done = 0
        for i, packed, scratch, gm, ga in res:
            for p, o, k, v in ups[done:i + 1]:
                m[k][p * 256 + o] = v
            done = i + 1
            core.check(gm == bytes(m[0]), "main memory is not what was "
                       "written after update %d %r" % (i, ups[i]), "memory")
            if ga is not None:
                core.check(ga == bytes(m[1]), "aux memory is not what was "
                           "written after update %d %r" % (i, ups[i]),
                           "memory")
            if packed != scratch:
                a = np.frombuffer(packed, dtype="<u8").reshape(32, -1)
                b = np.frombuffer(scratch, dtype="<u8").reshape(32, -1)
                p, o = np.argwhere(a != b)[0]
                raise core.Violation(
                    "after update %d %r column pair %d of page %d is %s, "
                    "from scratch %s" % (i, ups[i], o, p, bin(a[p, o]),
                                         bin(b[p, o])), "packed")
        adj = any(a[0] == b[0] and abs(a[1] - b[1]) == 1
                  for a in ups for b in ups)
        return dict(nontrivial=len(ups) >= 3 and adj, n=len(ups), tags=[
            mode, "edge" if any(u[1] in (0, 1, 254, 255) for u in ups)
            else "inner"])


PROP = C15()
