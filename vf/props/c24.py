from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from .. import core, enc, movie, ref


@st.composite
def long_film(draw):
    """Many blank frames: cheap, so that drift would add up."""
    c = draw(movie.film(max_ticks=20000))
    c["pages"] = 0
    return c


@st.composite
def running(draw, top):
    """The clock alone, for hours."""
    fps = draw(st.one_of(st.sampled_from(movie.FPS), st.builds(
        lambda a, b: "%d/%d" % (max(a, b), min(a, b)),
        st.integers(1, 120000), st.integers(1, 2000))))
    f = Fraction(fps)
    least = int(f) + 1
    rate = draw(st.one_of(st.sampled_from([14700, 22500, 14364, 44100]),
                          st.integers(least, least * 20),
                          st.integers(least, least * 2)))
    rate = max(rate, least)
    # at most a million frames
    n = draw(st.integers(1, min(top, int(rate / f * 1000000))))
    return {"clock": True, "fps": fps, "rate": rate, "n": n}


class C24(movie.MovieProp):
    id = "C24"
    technique = ("whole transcoder runs on generated sound and frames; the "
                 "decoded stream against exact rational switching times")
    rule = ("frame rates (also fractional), audio rates, skipping, films "
            "ending by sound or by frames; films of up to 500 samples with "
            "distinguishable frames and of up to 20000 with blank ones, two "
            "films of 1100 and 1500 frames (thorough: three times); the "
            "clock alone for up to 10 million samples (thorough: 100 "
            "million); non-trivial: two or more frames become the target, or a long "
            "film that ends by frames")
    budget = {"quick": (60, 40, 8), "thorough": (1500, 600, 8)}
    tables = enc.ALL_TABLES
    assumptions = (
        "stand-ins for ffmpeg's frame reader and bmp2dhr deliver the "
        "generated frames",
        "the video's frame rate is lower than the audio rate",
    )

    def enumerate(self, tier):
        b = {"mode": "HGR", "pal": "NTSC", "every": 1, "seed": 1, "pages": 2,
             "vary": False, "limit": None}
        # common rates; switches at exact samples
        yield dict(b, fps="30/1", rate=600, n=205, frames=20)
        yield dict(b, fps="30/1", rate=600, n=400, frames=10)
        yield dict(b, fps="30000/1001", rate=14700, n=1500, frames=9)
        yield dict(b, fps="24/1", rate=22050, n=60000, frames=60, pages=0)
        yield dict(b, fps="30000/1001", rate=14700, n=60000, frames=110,
                   pages=0, every=2)
        yield dict(b, fps="25/1", rate=26, n=300, frames=150, mode="DHGR")
        # many frames
        for mode, every, k in (("DHGR", 1, 1100), ("HGR", 3, 1500)):
            k *= 3 if tier == "thorough" else 1
            yield dict(b, fps="25/1", rate=26, n=k * 26 // 25 + 60, frames=k,
                       mode=mode, every=every)
        for f in (0, 1):
            yield dict(b, fps="30/1", rate=300, n=40, frames=f)
        yield dict(b, fps="30/1", rate=300, n=0, frames=3)
        # hours
        m = 10 ** 8 if tier == "thorough" else 10 ** 7
        for fps in ("30/1", "30000/1001", "24000/1001", "25/1"):
            for rate in (14700, 22500):
                yield {"clock": True, "fps": fps, "rate": rate, "n": m}

    def strategy(self, tier):
        return st.one_of(movie.film(), movie.film(), movie.film(),
                         long_film(), running(
                             10 ** (7 if tier == "thorough" else 6)))

    def hours(self, case, ctx):
        due = np.frombuffer(ctx.call("clock", rate=case["rate"],
                                     fps=case["fps"], n=case["n"]), "<i8")
        clock = movie.Clock(case)
        a, b = clock.tpf.numerator, clock.tpf.denominator
        t = np.arange(len(due) + 1, dtype=object) * a
        lo = (t + b - 1) // b
        hi = lo + ((t % b == 0) & (not clock.exact))
        lo[0] = hi[0] = 1
        bad = np.flatnonzero((due < lo[:-1]) | (due > hi[:-1]))
        if len(bad):
            k = int(bad[0])
            raise core.Violation(
                "frame %d of %s samples each is due at sample %s, the "
                "transcoder's clock says %d" % (k, clock.tpf, lo[k], due[k]),
                "clock")
        core.check(hi[-1] > case["n"] or lo[-1] > case["n"], "frame %d is "
                   "due at sample %s, the transcoder's clock has not asked "
                   "for it by sample %d" % (len(due), lo[-1], case["n"]),
                   "clock")
        return dict(nontrivial=len(due) > 1, n=len(due), tags=["clock alone"])

    def run(self, case, ctx):
        if case.get("clock"):
            return self.hours(case, ctx)
        frames = movie.pictures(case)
        au, (data, belief, last, nops, conv) = movie.shoot(case, ctx, frames)
        s = movie.Stream(data, self.entry(ctx))
        ticks = s.ticks
        clock = movie.Clock(case)
        lo, hi = clock.due(len(frames))
        if not len(frames):
            lo = hi = 1
        counts = {min(case["n"], lo - 1), min(case["n"], hi - 1)}
        core.check(len(ticks) in counts, "%d operations for %d samples and "
                   "%d frames of %s samples each, should be %s" % (
                       len(ticks), case["n"], len(frames), clock.tpf,
                       sorted(counts)), "count")
        for i, op in enumerate(ticks):
            core.check(op[1] == 34 + 2 * int(au[i]), "sample %d is %d, its "
                       "operation is %r" % (i, au[i], op), "pulse")
        used = self.targets(case, ctx, frames, s, clock) \
            if case["pages"] else 0
        big = not case["pages"] and len(ticks) > 2000 and \
            len(ticks) < case["n"]
        return dict(nontrivial=used > 1 or big, n=len(ticks), tags=[
            "long" if not case["pages"] else "short",
            "ends by " + ("frames" if len(ticks) < case["n"] else "sound"),
            "every %d" % case["every"]])

    def targets(self, case, ctx, frames, s, clock):
        """Every store is meant for the frame that is due."""
        dist = enc.Dist(ctx, case)
        ev = case["every"]
        cur = [np.zeros((32, 256), dtype=np.uint8) for _ in range(2)]
        bank = 0
        i = 0
        k = -1                      # latest frame surely due
        allow = None
        used = set()
        left = 0
        key = None
        for _, op in s.ops:
            if op[0] == "ack":
                bank = op[1] if case["mode"] == "DHGR" else 0
                continue
            if op[0] != "tick":
                continue
            i += 1
            while clock.due(k + 1)[1] <= i:
                k += 1
            may = {k // ev * ev}
            if clock.due(k + 1)[0] <= i:
                may.add((k + 1) // ev * ev)
            _, w, page, content, offs = op
            ok = False
            for f in may:
                for b in (bank, 1 - bank):
                    t = frames[f][b] if b < 2 and frames[f][b] is not None \
                        else None
                    if t is not None and any(t[page - 32, o] == content
                                             for o in offs):
                        ok = f
            if (tuple(may), bank) != key:
                # fewest operations this much work can take
                key = (tuple(may), bank)
                left = min(np.count_nonzero(dist.screen(
                    cur, frames[f], bank)) for f in may) // 4
            idle = all(cur[bank][page - 32, o] == content for o in offs)
            if ok is False:
                core.check(idle and left <= 0, "operation %d of %d samples a "
                           "frame %r is not for frame %s" % (
                               i, clock.tpf, op, sorted(may)), "target")
            elif len(may) == 1 and not idle:
                used.add(ok)
            left -= 1
            for o in offs:
                cur[bank][page - 32, o] = content
        return len(used)


PROP = C24()
