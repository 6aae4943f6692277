import numpy as np
from hypothesis import strategies as st

from .. import core, movie, player


@st.composite
def case(draw):
    items = draw(movie.op_list())
    n = sum(1 if i[0] == "op" else i[1] for i in items)
    total = 7 + n * 7 + 4 * ((7 + n * 7) // 2044)
    near = st.builds(lambda f, d: max(0, f * 2048 + d), st.integers(0, 6),
                     st.integers(-12, 12))
    limit = draw(st.one_of(
        st.none(), st.none(), near, st.just(0),
        st.integers(0, total + 20), st.integers(total - 9, total + 9).map(
            lambda x: max(0, x)),
        st.floats(0.5, total + 20).map(lambda x: round(x, 3))))
    return {"mode": draw(st.sampled_from(["HGR", "DHGR"])), "items": items,
            "limit": limit}


class C01(movie.MovieProp):
    id = "C01"
    technique = ("generated operation sequences and size limits; the emitted "
                 "stream against a reference framing")
    rule = ("sequences of 0 to about 2500 operations, biased to lengths "
            "around whole frames, size limits biased to operation and frame "
            "boundaries; enumerated: streams of 12000 operations (thorough: "
            "400000), and of 400000 (5000000) compared byte by byte; non-trivial: at least one ACK or a limit that cuts "
            "the stream")
    budget = {"quick": (700, 30, 8), "thorough": (20000, 420, 8)}

    def enumerate(self, tier):
        # every length around the first frame ends, every limit around them
        for k in (0, 1, 2, 290, 291, 292, 293, 583, 584, 876, 877):
            items = [["seg", k, player.TICKS, player.PAGES, k]] if k else []
            for mode in ("HGR", "DHGR"):
                yield {"mode": mode, "items": items, "limit": None}
        items = [["seg", 700, player.TICKS, player.PAGES, 5]]
        for limit in list(range(1, 17)) + list(range(2030, 2066)) + list(
                range(4086, 4110)):
            yield {"mode": "HGR" if limit & 1 else "DHGR", "items": items,
                   "limit": limit}

        # long streams
        n = 12000 if tier == "quick" else 400000
        for mode, limit in (("DHGR", None), ("HGR", 70000.5),
                            ("DHGR", 65536 + 2048)):
            yield {"mode": mode, "limit": limit,
                   "items": [["seg", n, player.TICKS, player.PAGES, 6]]}

        # very long ones
        for mode, n, limit in ((("DHGR", 400000, None),
                                ("HGR", 350000, 2.25 * 2 ** 20))
                               if tier == "quick" else
                               (("DHGR", 5000000, 33.1 * 2 ** 20),
                                ("DHGR", 2600000, 16.1 * 2 ** 20),
                                ("HGR", 2600000, None))):
            yield {"mode": mode, "many": n, "limit": limit,
                   "salt": 77777 * len(mode)}

    def strategy(self, tier):
        return case()

    def many(self, case, ctx):
        """Byte by byte against the stream these operations should be."""
        n, mode = case["many"], case["mode"]
        data = ctx.call("emit_many", mode=mode, limit=case["limit"], n=n,
                        salt=case["salt"], timeout=150 + n / 4000)
        entry = self.entry(ctx)
        at = {op: a for a, op in entry.items()}
        if case["limit"]:
            # operation i > 0 starts after i - 1 operations and the ACKs
            start = np.arange(n, dtype=np.int64) * 7 + 7
            start += start // 2044 * 4
            n = int((start < case["limit"]).sum())
        i = np.arange(n, dtype=np.int64)
        h = (i * 2654435761 + case["salt"]) & 0xffffffff
        addr = np.array([[at["tick", 4 + 2 * t, 32 + p] for p in range(32)]
                         for t in range(32)])[h >> 27, h >> 22 & 31]
        body = np.stack([addr >> 8, addr & 255, h >> 14 & 255, i & 255,
                         i >> 8 & 255, i >> 16 & 255, h & 255],
                        axis=1).astype(np.uint8).ravel()
        body = np.concatenate([np.frombuffer(data[:7], np.uint8), body])
        k = len(body) // 2044
        want = np.zeros((len(body) + 4 * k + 2) // 2048 * 2048 + 2048,
                        np.uint8)
        frames = want[:k * 2048].reshape(k, 2048)
        frames[:, :2044] = body[:k * 2044].reshape(k, 2044)
        frames[:, 2044] = at["ack",] >> 8
        frames[:, 2045] = at["ack",] & 255
        frames[:, 2046] = 0x54
        if mode == "DHGR":
            frames[::2, 2046] = 0x55
        tail = body[k * 2044:].tolist() + [at["terminate",] >> 8,
                                           at["terminate",] & 255]
        want[k * 2048:k * 2048 + len(tail)] = tail
        want = want[:k * 2048 + (len(tail) + 2047) // 2048 * 2048]
        got = np.frombuffer(data, np.uint8)
        m = min(len(got), len(want))
        # which bank an ACK selects is C25's; its fourth byte is not used
        same = got[:m] == want[:m]
        same[2046:k * 2048:2048] = got[2046:k * 2048:2048] >> 1 == 0x54 >> 1
        same[2047:k * 2048:2048] = True
        core.check(same.all(), "byte %d is $%02x, should be $%02x" % (
            (int(np.argmin(same)),) + (int(got[np.argmin(same)]),
                                       int(want[np.argmin(same)]))), "many")
        core.check(len(got) == len(want), "%d bytes, should be %d" % (
            len(got), len(want)), "length")
        return dict(nontrivial=True, n=n, tags=[mode, "%d MB" % (
            len(data) >> 20)])

    def run(self, case, ctx):
        if "many" in case:
            return self.many(case, ctx)
        ops = player.operations(case)
        data = ctx.call("emit_stream", mode=case["mode"],
                        limit=case["limit"],
                        ops=[("header", case["mode"])] + ops)
        s = movie.Stream(data, self.entry(ctx))
        s.framed()
        # which operations there must be
        limit = case["limit"]
        pos = 0
        n = -1
        for i in range(len(ops) + 1):
            if limit and pos >= limit:
                break
            n += 1
            pos += 7
            if pos % 2048 == 2044:
                pos += 4
        core.check(len(s.ticks) == max(n, 0), "%d operations are in the "
                   "stream, there should be %d of %d" % (
                       len(s.ticks), n, len(ops)), "dropped")
        core.check(s.ops[-1][0] == pos, "TERMINATE at %d, should be at %d" % (
            s.ops[-1][0], pos), "end")
        core.check(len(data) == (pos // 2048 + 1) * 2048, "%d bytes for an "
                   "end at %d" % (len(data), pos), "length")
        cut = n < len(ops)
        return dict(nontrivial=bool(s.acks) or cut, n=len(s.ops), tags=[
            case["mode"], "cut" if cut else "limit" if limit else "all",
            "%d frames" % (len(data) // 2048)])


PROP = C01()
