import numpy as np
from hypothesis import strategies as st

from .. import core, enc, movie, player
from ..player import SWITCH

PAL = {"NTSC": "P5", "IIGS": "P0"}
NAMES = {"in.mov": "in.a2m", "my.film.v2.mp4": "my.film.v2.a2m",
         "sub/clip.avi": "sub/clip.a2m", "a b.mov": "a b.a2m"}


@st.composite
def case(draw):
    c = draw(movie.film(max_ticks=700))
    c["name"] = draw(st.sampled_from(sorted(NAMES)))
    # None: the option is left out
    c["opt"] = {
        "mode": draw(st.sampled_from([c["mode"], c["mode"],
                                      None if c["mode"] == "DHGR" else
                                      "HGR"])),
        "pal": draw(st.sampled_from([c["pal"], None if c["pal"] == "NTSC"
                                     else c["pal"]])),
        "rate": draw(st.booleans()),
        "every": draw(st.booleans()),
        "norm": draw(st.sampled_from([1.0, 1.0, None, 2.0, 0.5])),
        "output": draw(st.sampled_from([None, None, "{d}/out.bin",
                                        "{d}/x.y.a2m"])),
        "mb": draw(st.one_of(st.none(), st.none(), st.just(0), st.integers(
            1, max(1, c["n"] * 7)).map(lambda b: b / 1048576.))),
        "first": draw(st.booleans()),
    }
    c["junk"] = draw(st.booleans())
    c["arrive"] = draw(st.one_of(st.just([]), player.schedule(8)))
    return fix(c)


def fix(c):
    if not c["opt"]["rate"]:
        # the default
        from fractions import Fraction
        c["rate"] = 14700
        tpf = 14700 / Fraction(c["fps"])
        c["frames"] = min(c["frames"], int(c["n"] / tpf) + 2)
    if not c["opt"]["every"]:
        c["every"] = 2
    c["n"] = max(1, c["n"])
    return c


class C26(movie.MovieProp):
    id = "C26"
    technique = ("end to end: the command line on generated movies and "
                 "options, the file played by the assembled player in a 6502 "
                 "model over a generated arrival of data")
    rule = ("films of up to about 1400 operations and one of 11000 "
            "(thorough: 110000); options each given or "
            "left out; non-trivial: at least one whole 2 KB frame was "
            "played, or an option cut the output")
    budget = {"quick": (40, 40, 8), "thorough": (1000, 600, 8)}
    tables = enc.ALL_TABLES
    assumptions = (
        "stand-ins for ffmpeg's frame reader and bmp2dhr deliver the "
        "generated frames; sound is a WAV file",
        "py65 and the Apple II and W5100 model of worker/apple.py stand in "
        "for the hardware",
    )

    def prepare(self, ctx):
        super().prepare(ctx)
        player.build(ctx)

    def enumerate(self, tier):
        b = {"mode": "DHGR", "pal": "NTSC", "fps": "30/1", "rate": 3000,
             "every": 1, "n": 650, "frames": 9, "seed": 5, "pages": 8,
             "vary": True, "limit": None, "name": "in.mov", "junk": False,
             "arrive": []}
        o = {"mode": "DHGR", "pal": "NTSC", "rate": True, "every": True,
             "norm": 1.0, "output": None, "mb": None, "first": False}
        yield dict(b, opt=o)
        yield dict(b, opt=dict(o, mode="HGR"), mode="HGR", junk=True)
        yield dict(b, opt=dict(o, mode=None, pal="IIGS", output="{d}/o.bin"),
                   pal="IIGS")
        yield fix(dict(b, opt=dict(o, mode=None, pal=None, rate=False,
                                   every=False, norm=None), n=900))
        yield dict(b, opt=dict(o, mb=2100 / 1048576.))
        yield dict(b, opt=dict(o, norm=0.3), fps="24000/1001", every=3)

        # a long film
        k = 1 if tier == "quick" else 10
        yield dict(b, opt=dict(o, mb=1 + 0.1 * k), n=11000 * k,
                   frames=14 * k, pages=2, rate=24000,
                   arrive=[[30000, -1 - i] for i in range(40 * k)])

    def strategy(self, tier):
        return case()

    def run(self, case, ctx):
        o = case["opt"]
        tail = []
        if o["mode"]:
            tail += ["--video_mode", o["mode"]]
        if o["pal"]:
            tail += ["--palette", o["pal"]]
        if o["rate"]:
            tail += ["--audio_bitrate", str(case["rate"])]
        if o["every"]:
            tail += ["--every_n_video_frames", str(case["every"])]
        if o["norm"] is not None:
            tail += ["--audio_normalization", repr(o["norm"])]
        if o["output"]:
            tail += ["--output", o["output"]]
        if o["mb"] is not None:
            tail += ["--max_output_mb", repr(o["mb"])]
        name = "{d}/" + case["name"]
        argv = [name] + tail if o["first"] else tail + [name]
        out = NAMES[case["name"]]
        if o["output"]:
            out = o["output"][4:]
        frames = movie.pictures(case)
        au = movie.sound(case)
        wav = movie.wav_of(au)
        r = ctx.call(
            "command", argv=argv, name=case["name"], wav=wav,
            rate=case["rate"], channels=1, fps=case["fps"],
            frames=[(m.tobytes(), None if a is None else a.tobytes())
                    for m, a in frames], rng=case["seed"],
            junk=[out] if case["junk"] and "/" not in out else [])
        core.check(list(r["files"]) == [out], "%r writes %r, should be %r" % (
            argv, sorted(r["files"]), out), "output")
        data = r["files"][out]
        mode = case["mode"]
        s = movie.Stream(data, self.entry(ctx))
        s.framed()
        core.check(s.header[6] == (mode == "DHGR"), "header %r for %s" % (
            s.header, mode), "mode")
        for a in r["calls"]:
            core.check(a[0] == mode.lower() and PAL[case["pal"]] in a[1:],
                       "converter is called for %r" % a, "options")
        # sound
        x = np.frombuffer(wav, dtype="<i2").astype(np.float64)
        k = o["norm"]
        tol = 1e-6
        if k is None:
            tol = 1e-4
            m = np.max(np.abs(np.percentile(x, [0.5, 99.5])))
            k = 16384. / m if m else 1.0
        v = x / 16384 * k * 16
        lo = np.clip(np.trunc(v - tol), -15, 16).astype(int)
        hi = np.clip(np.trunc(v + tol), -15, 16).astype(int)
        for i, op in enumerate(s.ticks):
            w = (op[1] - 34) // 2
            core.check(i < len(lo) and lo[i] <= w <= hi[i], "sample %d is "
                       "%g, its operation is %r" % (
                           i, v[i] if i < len(v) else np.nan, op), "pulse")
        clock = movie.Clock(case)
        a, b = (clock.due(len(frames)) if frames else (1, 1))
        full = {min(case["n"], a - 1), min(case["n"], b - 1)}
        cut = False
        if o["mb"]:
            limit = o["mb"] * 1048576
            pos, n = 0, -1
            while pos < limit:
                n += 1
                pos += 7
                if pos % 2048 == 2044:
                    pos += 4
            cut = n < min(full)
            full = {min(n, f) for f in full}
        core.check(len(s.ticks) in full, "%d operations in the file, should "
                   "be %s" % (len(s.ticks), sorted(full)), "count")
        self.play(case, ctx, s, r, mode, cut)
        return dict(nontrivial=bool(s.acks) or cut, n=len(s.ticks), tags=[
            mode, "cut" if cut else "whole", "auto" if o["norm"] is None
            else "norm", "named" if o["output"] else "default name"])

    def play(self, case, ctx, s, r, mode, cut):
        addr = player.by_symbols(player.info(ctx)[1])
        for pos, op in s.ops:
            want = addr(op)
            got = s.data[pos] << 8 | s.data[pos + 1]
            core.check(want == got, "%r is at $%04x in the player, the file "
                       "has $%04x" % (op, want, got), "symbol")
        watch = sorted({addr(op) for _, op in s.ops} | {addr(("nop",))})
        run = player.play(ctx, case, s.data, watch,
                          arrivals=player.arrivals(case["arrive"],
                                                   len(s.data)))
        tr = player.Trace(run, s.ops, addr)
        core.check(run.why == "mli", "the player did not reach its end: %s "
                   "at $%04x" % (run.why, run.pc), "end")
        sw = {}
        for c, k, a, b in run.ev[:tr.idx[0]]:
            if k == SWITCH:
                sw[a & 0xfe] = a & 1
        dbl = mode == "DHGR"
        core.check(sw.get(0x56) == 1 and sw.get(0x50) == 0 and
                   sw.get(0x0c, 0) == dbl and (sw.get(0x5e) == 0) == dbl,
                   "display switches are %r in %s" % (sw, mode), "display")
        for i in range(len(tr)):
            if tr.op(i)[0] == "tick":
                player.pulse_ok(tr, i, None)
        player.rx_ok(run, s.data)
        mem = s.replay(mode)
        banks = [run.main, run.aux] if dbl else [run.main]
        for b, m in enumerate(banks):
            core.check(m[0x2000:0x4000] == mem[b].tobytes(), "screen memory "
                       "of bank %d is not what the file says" % b, "memory")
        if r["belief"] and not case["opt"]["mb"]:
            for b, m in enumerate(banks):
                if r["belief"][b] is not None:
                    core.check(m[0x2000:0x4000] == r["belief"][b],
                               "after playing, bank %d is not what the "
                               "encoder believes" % b, "belief")


PROP = C26()
