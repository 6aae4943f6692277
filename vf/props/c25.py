import numpy as np
from hypothesis import strategies as st

from .. import core, enc, movie


class C25(movie.MovieProp):
    id = "C25"
    technique = ("whole transcoder runs; the finished stream decoded and "
                 "replayed into both banks, against the encoder's belief and "
                 "the frames")
    rule = ("films of up to 1500 operations and one of each mode of 21000 "
            "(thorough: 126000), with skipping, size limits and "
            "different contents in the two banks; non-trivial: stores after "
            "at least one ACK")
    budget = {"quick": (40, 40, 8), "thorough": (1000, 600, 8)}
    tables = enc.ALL_TABLES
    assumptions = (
        "stand-ins for ffmpeg's frame reader and bmp2dhr deliver the "
        "generated frames",
    )

    def enumerate(self, tier):
        b = {"pal": "NTSC", "every": 1, "seed": 3, "pages": 32, "vary": True,
             "limit": None, "fps": "30/1", "rate": 6000}
        yield dict(b, mode="DHGR", n=1200, frames=9)
        yield dict(b, mode="HGR", n=700, frames=9)
        # a frame switch just before, at and after each ACK
        for d in (-2, -1, 0, 1, 2):
            yield dict(b, mode="DHGR", n=600, frames=4, rate=30 * (292 + d),
                       pages=8)
        for k in (2, 3, 5):
            for d in (-1, 0, 1, 292):
                yield dict(b, mode="DHGR", n=292 * 11, frames=12,
                           rate=30 * (292 * k + d), pages=8, every=1 + k % 2)
        for limit in (2040, 2048, 2049, 4096):
            yield dict(b, mode="DHGR", n=700, frames=9, limit=limit, pages=8)

        # many bank switches
        k = 1 if tier == "quick" else 6
        for mode, limit in (("DHGR", None), ("DHGR", 131072), ("HGR", None)):
            n = k * 21000
            yield dict(b, mode=mode, n=n, frames=12 * k, pages=1, every=2,
                       rate=30 * n // (12 * k), limit=limit and k * limit)

    def strategy(self, tier):
        return movie.film(max_ticks=1000, limit=True)

    def run(self, case, ctx):
        frames = movie.pictures(case)
        au, (data, belief, last, nops, conv) = movie.shoot(case, ctx, frames)
        s = movie.Stream(data, self.entry(ctx))
        mode = case["mode"]
        dh = mode == "DHGR"
        for i, (p, b) in enumerate(s.acks):
            want = (i + 1) % 2 if dh else 0
            core.check(b == want, "ACK %d announces bank %d" % (i, b),
                       "alternate")
        self.banks(case, ctx, frames, s)
        movie.believed(case, self.entry(ctx), s, belief, last, nops)
        after = s.acks and s.ops[-2][0] > s.acks[0][0]
        return dict(nontrivial=bool(after), n=len(s.ticks), tags=[
            mode, "limit" if case["limit"] else "no limit",
            "%d acks" % len(s.acks)])

    def banks(self, case, ctx, frames, s):
        """Every store is one some frame so far wants in that bank."""
        dh = case["mode"] == "DHGR"
        if not case["pages"]:
            return
        clock = movie.Clock(case)
        ev = case["every"]
        cur = [np.zeros((32, 256), dtype=np.uint8) for _ in range(2)]
        bank = i = 0
        k = -1
        for _, op in s.ops:
            if op[0] == "ack":
                bank = op[1] if dh else 0
            if op[0] != "tick":
                continue
            i += 1
            while clock.due(k + 1)[1] <= i:
                k += 1
            _, w, page, content, offs = op
            # the sample before or after a switch is C24's business
            may = {max(0, (k + d) // ev * ev) for d in (-1, 0, 1)}
            ok = any(frames[f][bank][page - 32, o] == content
                     for f in may if f < len(frames) for o in offs)
            idle = all(cur[bank][page - 32, o] == content for o in offs)
            core.check(ok or idle, "operation %d %r is not meant for bank %d"
                       % (i, op, bank), "bank")
            for o in offs:
                cur[bank][page - 32, o] = content


PROP = C25()
