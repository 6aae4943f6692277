"""Reference model of which operations the encoder may emit next."""
import numpy as np

from . import core, enc, movie, ref


class Model:
    def __init__(self, ctx, case):
        self.dist = enc.Dist(ctx, case)
        self.scr = [np.zeros((32, 256), dtype=np.uint8) for _ in range(2)]
        self.pri = [np.zeros((32, 256), dtype=np.int64) for _ in range(2)]
        self.stats = dict(ops=0, full=0, extras=0, ties=0, carried=0)

    def encoding(self, target, bank, ops, want):
        """want: which of 'exact', 'order' to judge."""
        if not ops:
            return
        D = self.dist.screen(self.scr, target, bank)
        P = self.pri[bank]
        if ((P > 0) & (D > 0)).any():
            self.stats["carried"] += 1
        P[D == 0] = 0
        P += D
        P0 = P.copy()
        live = P0 > 0
        diff = D.copy()
        exact = np.zeros((32, 256), dtype=bool)
        for i, op in enumerate(ops):
            enc.well_formed(op)
            page, content, offsets = op
            p = page - 32
            prim = offsets[0]
            tgt = target[1 if bank else 0]
            self.stats["ops"] += 1
            if not live.any():
                # out of work: nothing on the screen may change for the worse
                for o in offsets:
                    if want == "exact" and self.scr[bank][p, o] != content:
                        core.check(content == tgt[p, o], "idle operation "
                                   "stores something new that is not the "
                                   "target byte", "idle", op=op, index=i)
                enc.apply_store(self.scr, bank, op)
                continue
            if want == "order":
                best = int(P0[live].max())
                core.check(live[p, prim], "first offset (%d, %d) has no "
                           "outstanding difference (best outstanding "
                           "priority %d), operation %d: %r" % (
                               p, prim, best, i, op), "dead")
                core.check(P0[p, prim] == best, "first offset (%d, %d) has "
                           "priority %d but %d is outstanding at %s, "
                           "operation %d: %r" % (
                               p, prim, P0[p, prim], best,
                               np.argwhere(live & (P0 == best))[0].tolist(),
                               i, op), "order")
            else:
                core.check(content == tgt[p, prim], "content is not the "
                           "target byte $%02x at the first offset" %
                           tgt[p, prim], "content", op=op, index=i)
            live[p, prim] = False
            diff[p, prim] = 0
            P[p, prim] = 0
            S = self.dist.store_page(target, bank, p, content)
            distinct = []
            for o in offsets[1:]:
                if o != prim and o not in distinct:
                    distinct.append(o)
            if want == "exact":
                delta = S - diff[p]
                cand = live[p] & (delta < 0)
                cand[prim] = False
                for o in distinct:
                    core.check(cand[o], "storing $%02x at offset %d is no "
                               "improvement on the start of the frame "
                               "(before %d, after %d, outstanding %s), "
                               "operation %d: %r" % (
                                   content, o, diff[p, o], S[o],
                                   bool(live[p, o]), i, op), "worse")
                    core.check(not exact[p, o] or content == tgt[p, o],
                               "exact byte overwritten", "exact", op=op)
                need = min(3, int(cand.sum()))
                core.check(len(distinct) == need, "%d of %d usable extra "
                           "offsets used (%d candidates), operation %d: %r" %
                           (len(distinct), need, int(cand.sum()), i, op),
                           "wasted")
                if need:
                    bestd = np.sort(delta[cand])[:need].tolist()
                    got = sorted(int(delta[o]) for o in distinct)
                    core.check(got == bestd, "extra offsets improve by %r "
                               "where %r was available, operation %d: %r" % (
                                   got, bestd, i, op), "not-best")
                self.stats["full"] += need == 3
                self.stats["extras"] += need
            exact[p, prim] = True
            for o in distinct:
                P[p, o] = S[o]
                live[p, o] = S[o] > 0
            enc.apply_store(self.scr, bank, op)


def judge(case, ctx, want):
    if "film" in case:
        return judge_film(case["film"], case["hold"], ctx, want)
    frames, res = enc.execute(case, ctx)
    m = Model(ctx, case)
    for s, r in zip(case["steps"], res):
        m.encoding(frames[s[0]], s[1], r[0], want)
    return m


def judge_film(film, hold, ctx, want):
    """The operations of a whole film's output stream."""
    if "entry" not in ctx.data:
        ctx.data["entry"] = movie.entries()
    _, _, (_, (data, _, _, _, _)) = movie.shoot_still(film, ctx, hold)
    s = movie.Stream(data, ctx.data["entry"])
    pics = enc.arrays(enc.render(film))
    m = Model(ctx, film)
    for f, bank, ops in movie.encodings(film, hold, s):
        m.encoding(pics[f], bank, ops, want)
    return m
