import os
import sys

REPO = os.environ["VERIF_REPO"]
SCRATCH = os.environ["VERIF_SCRATCH"]


class CodeFault(Exception):
    """What the code did is already known to be wrong (bad type, ...)."""
    verif_origin = "REPO"


def use_transcoder():
    """cwd as the transcoder expects it, without touching the repository."""
    d = os.path.join(SCRATCH, "cwd")
    os.makedirs(d, exist_ok=True)
    os.makedirs(os.path.join(d, "transcoder", "data"), exist_ok=True)
    os.makedirs(os.path.join(d, "player"), exist_ok=True)
    p = os.path.join(d, "player", "iivision.dbg")
    if not os.path.lexists(p):
        os.symlink(os.path.join(REPO, "player", "iivision.dbg"), p)
    os.chdir(d)
    p = os.path.join(REPO, "transcoder")
    if p not in sys.path:
        sys.path.insert(0, p)


def ints(xs):
    """Plain ints from whatever sequence of integers the code produced."""
    return [int(x) for x in xs]
