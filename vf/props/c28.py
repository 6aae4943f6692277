from hypothesis import strategies as st

from .. import core, enc, movie
from . import c27

HOW = ["missing", "nothing", "denied", "short", "shortaux", "noaux"]
EXC = ["OSError", "RuntimeError", "ValueError", "AssertionError", "EOFError",
       "KeyError", "IndexError", "TypeError", "MemoryError",
       "BrokenPipeError", "Exception", "CalledProcessError"]


@st.composite
def case(draw):
    r = draw(c27.run_st(["in.mov"], 0))
    r["n"] = max(1, r["n"])
    r["drop"] = []
    r["take"] = None
    k = draw(st.sampled_from(["conv", "conv", "conv", "read", "blocked"]))
    if k == "conv":
        how = HOW if r["mode"] == "DHGR" else HOW[:4]
        r["conv_fail"] = {
            str(draw(st.integers(0, r["n"] - 1))): draw(st.sampled_from(how))
            for _ in range(draw(st.integers(1, 2)))}
    elif k == "read":
        r["read_fail"] = draw(st.integers(0, r["n"]))
        r["read_exc"] = draw(st.sampled_from(EXC))
    else:
        r["blocked"] = True
    # an earlier run may have left part of a cache
    if k != "blocked" and draw(st.booleans()):
        pre = dict(r, n=draw(st.integers(0, r["n"])), conv_fail={},
                   read_fail=None)
        return {"runs": [pre, dict(r, rev=1)]}
    return {"runs": [r]}


@st.composite
def film(draw):
    c = draw(movie.film(max_ticks=150))
    c["frames"] = max(1, c["frames"])
    c["fail"] = [draw(st.integers(0, c["frames"] - 1)),
                 draw(st.sampled_from(
                     HOW[:3] if c["mode"] == "HGR" else HOW))]
    return c


class C28(movie.MovieProp):
    id = "C28"
    technique = ("fault injection: reading, converting or loading fails at "
                 "generated frames, through the frame source alone and the "
                 "whole transcoder")
    rule = ("faults: converter missing or not executable, no "
            "output, truncated output, missing auxiliary output, read error "
            "of 12 types, unusable cache "
            "directory; at every position from first to last frame, with or "
            "without a cache; every generated case has a fault; non-trivial: "
            "the fault was met")
    budget = {"quick": (120, 40, 8), "thorough": (3000, 420, 8)}
    tables = enc.ALL_TABLES
    assumptions = ("stand-ins for ffmpeg's frame reader and bmp2dhr",)

    def enumerate(self, tier):
        b = {"name": "in.mov", "size": [40, 30], "take": None, "pal": "NTSC",
             "rev": 0}
        for m in ("HGR", "DHGR"):
            for n, i in ((1, 0), (14, 0), (14, 13), (14, 11), (14, 5)):
                for how in HOW if m == "DHGR" else HOW[:4]:
                    yield {"runs": [dict(b, mode=m, n=n,
                                         conv_fail={str(i): how})]}
                yield {"runs": [dict(b, mode=m, n=n, read_fail=i)]}
            yield {"runs": [dict(b, mode=m, n=14, read_fail=14)]}
        for i, x in enumerate(EXC):
            yield {"runs": [dict(b, mode=("HGR", "DHGR")[i % 2], n=5,
                                 read_fail=(3, 0, 5)[i % 3], read_exc=x)]}

    def strategy(self, tier):
        return st.one_of(case(), case(), film())

    def run(self, case, ctx):
        if "fail" in case:
            return self.film(case, ctx)
        try:
            res = ctx.call("grab", runs=case["runs"], timeout=25)
        except core.Violation as v:
            if v.sig == "hang":
                raise core.Violation("the frame source never answers, "
                                     "neither with frames nor an error",
                                     "hang")
            raise
        cached = set()
        met = False
        for r, got in zip(case["runs"], res):
            bad = [int(i) for i in r.get("conv_fail") or {}
                   if int(i) not in cached]
            if r.get("read_fail") is not None:
                bad.append(r["read_fail"])
            if r.get("blocked"):
                bad.append(0)
            if not bad:
                core.check(got["exc"] is None, "raised %s without a fault" %
                           got["exc"], "raised")
                core.check(len(got["frames"]) == r["n"], "%d frames of %d" % (
                    len(got["frames"]), r["n"]), "count")
            else:
                met = True
                first = min(bad)
                core.check(got["exc"] is not None, "frame %d failed (%s), "
                           "the consumer got %d frames and no error" % (
                               first, r.get("conv_fail"),
                               len(got["frames"])), "silent")
                core.check(len(got["frames"]) == first, "frame %d failed, "
                           "the consumer got %d frames before the error" % (
                               first, len(got["frames"])), "count")
            for i, f in enumerate(got["frames"]):
                rev = 0 if i in cached else r["rev"]
                core.check(tuple(f) == c27.digests(r, i, rev),
                           "frame %d is another's" % i, "frame")
            cached |= set(got["there"])
        return dict(nontrivial=met, tags=[
            str(sorted((r.get("conv_fail") or {}).values())) if
            r.get("conv_fail") else "read" if r.get("read_fail") is not None
            else "blocked"], n=1)

    def film(self, case, ctx):
        """Through the whole transcoder."""
        frames = movie.pictures(case)
        clock = movie.Clock(case)
        i, how = case["fail"]
        lo, hi = clock.due(i)
        try:
            movie.shoot(case, ctx, frames, conv_fail={i: how}, timeout=60)
        except core.CodeRaised:
            core.check(lo <= case["n"], "frame %d is never due, but its "
                       "failure was raised" % i, "early")
            return dict(nontrivial=True, tags=["transcoder"], n=1)
        core.check(hi > case["n"], "frame %d failed (%s) and was due at "
                   "sample %d of %d; the transcoder went on as if the video "
                   "had ended" % (i, how, lo, case["n"]), "silent")
        return dict(nontrivial=False, tags=["never due"], n=1)


PROP = C28()
