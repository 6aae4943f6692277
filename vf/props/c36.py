from hypothesis import strategies as st

from .. import core, enc, movie
from .c28 import EXC, HOW


@st.composite
def case(draw):
    c = draw(movie.film(max_ticks=400))
    c["n"] = max(1, c["n"])
    c["frames"] = min(c["frames"], 40)
    c["norm"] = draw(st.sampled_from([1.0, 1.0, None]))
    k = draw(st.sampled_from(["sound", "sound", "sound", "conv", "conv",
                              "read", "out", "undecodable", "absent"]))
    if k == "sound":
        f = [k, draw(st.one_of(st.integers(0, c["n"]), st.just(c["n"] - 1))),
             draw(st.sampled_from(EXC))]
    elif k in ("conv", "read") and c["frames"]:
        i = draw(st.integers(0, c["frames"] - 1))
        f = [k, i, draw(st.sampled_from(
            EXC if k == "read" else HOW[:3] if c["mode"] == "HGR" else HOW))]
    elif k == "undecodable":
        f = [k, draw(st.integers(0, 3))]
    elif k == "absent":
        f = [k]
    else:
        f = [draw(st.sampled_from(["full", "directory", "nowhere"]))]
    c["fault"] = f
    return c


class C36(movie.MovieProp):
    id = "C36"
    technique = ("fault injection into the command line: sound, pictures or "
                 "output fail at generated points; the outcome and the "
                 "output against those of a run without the fault")
    rule = ("films of up to about 800 samples and one of 131500; sound "
            "that is absent, undecodable, or cannot be read from any sample "
            "on (12 kinds of exceptions), pictures that cannot be read or "
            "converted, output on a full device, into a missing directory or "
            "over a directory; non-trivial: the fault was met")
    budget = {"quick": (90, 35, 8), "thorough": (3000, 420, 8)}
    tables = enc.ALL_TABLES
    assumptions = ("stand-ins for ffmpeg's frame reader and bmp2dhr; sound "
                   "is a WAV file",)

    def enumerate(self, tier):
        b = {"mode": "DHGR", "pal": "NTSC", "fps": "30/1", "rate": 3000,
             "every": 1, "n": 650, "frames": 9, "seed": 5, "pages": 8,
             "vary": True, "limit": None, "norm": 1.0}
        faults = [["full"], ["directory"], ["nowhere"], ["absent"],
                  ["undecodable", 0], ["undecodable", 3], None,
                  ["conv", 3, "missing"], ["conv", 0, "nothing"],
                  ["read", 6, "OSError"], ["read", 1, "KeyError"]]
        for i, f in enumerate(faults):
            yield dict(b, fault=f)
            yield dict(b, fault=f, mode="HGR", norm=None)
        for i, x in enumerate(EXC):
            yield dict(b, fault=["sound", (0, 1, 649, 650, 300)[i % 5], x],
                       norm=(1.0, None)[i % 2])
            yield dict(b, fault=["sound", (649, 650, 7, 0)[i % 4], x],
                       mode="HGR")
        # sound is read in blocks
        for at in (131072, 131073) if tier == "quick" else (
                131071, 131072, 131073, 131499):
            yield dict(b, n=131500, frames=3, fps="1/50", pages=1,
                       fault=["sound", at, "OSError"])

    def strategy(self, tier):
        return case()

    def run(self, case, ctx):
        argv = ["--video_mode", case["mode"], "--palette", case["pal"],
                "--audio_bitrate", str(case["rate"]),
                "--every_n_video_frames", str(case["every"])]
        if case["norm"] is not None:
            argv += ["--audio_normalization", repr(case["norm"])]
        frames = movie.pictures(case)
        args = dict(
            argv=argv, name="in.mov", wav=movie.wav_of(movie.sound(case)),
            rate=case["rate"], fps=case["fps"], rng=case["seed"],
            frames=[(m.tobytes(), None if a is None else a.tobytes())
                    for m, a in frames])
        f = case["fault"]
        long = case["n"] > 10000
        try:
            how, data = ctx.call("faulty", fault=f, timeout=140 if long
                                 else 60, **args)
        except core.Violation as v:
            if v.sig == "hang":
                raise core.Violation("with %r the transcoder never ends" % f,
                                     "hang")
            raise
        met = True
        clock = movie.Clock(case)
        if f is None:
            met = False
        elif f[0] in ("conv", "read"):
            lo, hi = clock.due(f[1])
            met = None if lo <= case["n"] < hi else lo <= case["n"]
        elif f[0] == "sound":
            # the film may have ended before
            lo, hi = clock.due(len(frames))
            met = None if f[1] >= lo - 1 and case["norm"] else True
        if met is None:
            met = how is not None
        if not met:
            core.check(how is None, "%s although %r does not matter" % (
                how, f), "early")
        elif how is None and f[0] in ("full", "nowhere") and data is not None:
            # the output is there all the same, so it must be whole
            _, whole = ctx.call("faulty", fault=None, timeout=60, **args)
            core.check(data == whole, "with %r the output is not whole" % f,
                       "silent")
            met = False
        elif how is None:
            raise core.Violation(
                "with %r the transcoder ends as if all were well, with %s "
                "bytes of output" % (f, "no" if data is None else len(data)),
                "silent")
        if data is not None and f and not (long and not met):
            if long:
                # what was read is converted
                s = movie.FRAME * (f[1] * 7 // movie.FRAME - 1)
                core.check(len(data) >= s or f[1] < 131072, "sound could be "
                           "read up to sample %d, but there are only %d "
                           "bytes of output" % (f[1], len(data)), "short")
            _, whole = ctx.call("faulty", fault=None, timeout=140 if long
                                else 60, **args)
            core.check(whole is not None and whole.startswith(data),
                       "with %r the output is not the beginning of what it "
                       "is without" % f, "prefix")
        return dict(nontrivial=bool(met), n=1, tags=[
            f[0] if f else "none", "met" if met else "not met"])


PROP = C36()
