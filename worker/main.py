"""Zygote: loads the code under test, then forks one server per connection.

Runs under the interpreter the repository's dependencies are installed for.
Handlers live in h_*.py; each is a function taking keyword arguments and
returning builtins.  Nothing is judged here.
"""
import gc
import os
import pickle
import signal
import socket
import struct
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ["VERIF_REPO"]
SCRATCH = os.environ["VERIF_SCRATCH"]


def recvn(s, n):
    b = bytearray()
    while len(b) < n:
        d = s.recv(min(1 << 20, n - len(b)))
        if not d:
            os._exit(0)
        b += d
    return bytes(b)


def describe(e):
    """Who raised: the code under test, or the harness?"""
    origin = "OTHER"
    for f in traceback.extract_tb(e.__traceback__):
        fn = os.path.realpath(f.filename)
        if fn.startswith(os.path.realpath(REPO) + os.sep):
            origin = "REPO"
        elif fn.startswith(os.path.realpath(HERE) + os.sep):
            origin = "VERIF"
    if getattr(e, "verif_origin", None):
        origin = e.verif_origin
    try:
        msg = str(e)
    except Exception:
        msg = "<unprintable>"
    return dict(origin=origin, type=type(e).__name__, msg=msg[:2000],
                tb="".join(traceback.format_exception(
                    type(e), e, e.__traceback__))[-6000:])


def serve(conn, handlers):
    conn.sendall(struct.pack("<I", os.getpid()))
    while True:
        n, = struct.unpack("<I", recvn(conn, 4))
        fn, args = pickle.loads(recvn(conn, n))
        try:
            h = handlers.get(fn)
            if h is None:
                raise KeyError("no handler " + fn)
            res = ("ok", h(**args))
        except BaseException as e:
            res = ("exc", describe(e))
        data = pickle.dumps(res, protocol=4)
        conn.sendall(struct.pack("<I", len(data)) + data)


def main():
    profile, path = sys.argv[1:3]
    sys.path.insert(0, HERE)
    import importlib
    # stdout of the code under test is of no interest
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    mod = importlib.import_module("h_" + profile)
    handlers = mod.HANDLERS
    try:
        mod.preload()
    except BaseException:
        # each request will meet the same failure and report it
        traceback.print_exc()
    gc.collect()
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(path + ".tmp")
    srv.listen(64)
    os.rename(path + ".tmp", path)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        conn, _ = srv.accept()
        if os.fork() == 0:
            srv.close()
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            try:
                serve(conn, handlers)
            except BaseException:
                traceback.print_exc()
            os._exit(0)
        conn.close()


main()
