import importlib
import json
import os
import sys

from . import core


def load(pid):
    m = importlib.import_module("vf.props." + pid.lower())
    return m.PROP


def replay(path):
    d = json.load(open(path))
    prop = load(d["property"])
    core.load_known()
    ctx = core.Ctx(prop, d.get("tier", "quick"), d.get("seed", 1),
                   core.make_scratch())
    ctx.shm = None
    zy = None
    try:
        prop.prepare(ctx)
        if prop.profile:
            zy = core.Zygote(prop.profile, ctx.scratch, ctx.env)
            ctx.worker = core.Worker(zy.path)
        if d["case"] != {"prepare": True}:
            print(prop.run(d["case"], ctx))
        print("replay passed")
        return 0
    except core.Violation as v:
        print("failure: %s [%s]" % (v.msg, v.sig))
        if isinstance(v, core.CodeRaised):
            print(v.exc["tb"])
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        return 1
    finally:
        import shutil
        if zy:
            zy.stop()
        shutil.rmtree(ctx.scratch, ignore_errors=True)
        if ctx.shm:
            shutil.rmtree(ctx.shm, ignore_errors=True)


def main():
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get(
        "VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return core.run_property(load(pid), tier, seed)


if __name__ == "__main__":
    sys.exit(main())
