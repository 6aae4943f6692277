"""Builds reference distance tables for the encoder checks."""
import os
import subprocess

import numpy as np

from . import core, ref


def build(ctx, wanted):
    """wanted: [(mode, palette)].  Returns {(mode, palette): path} and puts
    the paths into the worker's environment."""
    if ctx.shm is None:
        ctx.shm = core.shm_dir()
    exe = os.path.join(ctx.scratch, "tables")
    subprocess.run(["gcc", "-O3", "-march=native", "-pthread", "-o", exe,
                    os.path.join(core.VERIF, "native", "tables.c")],
                   check=True)
    res = {}
    for mode, pal in wanted:
        pt = ref.pixel_table(mode)
        pp = os.path.join(ctx.scratch, "px.bin")
        pt.tofile(pp)
        cp = os.path.join(ctx.scratch, "cost.bin")
        ref.cost_matrix(pal).astype("<i4").tofile(cp)
        out = os.path.join(ctx.shm, "%s_%s.u16" % (mode, pal))
        subprocess.run([exe, pp, cp, out, str(1 << ref.BITS[mode]),
                        str(ref.NPIX[mode]), str(ref.NOFF[mode]),
                        str(ref.BITS[mode])], check=True)
        res[mode, pal] = out
    ctx.env["VERIF_TABLES"] = ctx.shm
    ctx.data.setdefault("tables", {}).update(res)
    return res


_MM = {}


def load(ctx, mode, pal):
    """[o][(a << bits) + b] -> distance, mapped read-only."""
    k = ctx.data["tables"][mode, pal]
    if k not in _MM:
        _MM[k] = np.memmap(k, dtype=np.uint16, mode="r").reshape(
            ref.NOFF[mode], -1)
    return _MM[k]
