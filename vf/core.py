"""Driver: runs one property's generated cases over shards and judges them."""

import hashlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORKER_PY = os.environ.get("VERIF_WORKER_PY", "/opt/venv/bin/python")


class Violation(Exception):
    """The code broke the property.  `sig` identifies the kind of failure."""

    def __init__(self, msg, sig=None, info=None):
        super().__init__(msg)
        self.msg = msg
        self.sig = sig or "general"
        self.info = info        # run()'s result, if everything else held


class HarnessError(Exception):
    kind = None         # type of the exception met in the worker


# What reading a result of the wrong shape (None for a number, a short list,
# ...) raises in the oracle or in the worker.
SHAPE = (TypeError, ValueError, IndexError, KeyError, ZeroDivisionError,
         OverflowError)
SHAPE_NAMES = {t.__name__ for t in SHAPE}


class CodeRaised(Violation):
    """The code under test raised."""

    def __init__(self, info):
        super().__init__("code under test raised %s: %s" % (
            info["type"], info["msg"]), "raised:" + info["type"])
        self.exc = info


class StopShard(KeyboardInterrupt):
    pass


def check(cond, msg, sig=None, **kw):
    if not cond:
        if kw:
            msg += " " + " ".join("%s=%r" % i for i in kw.items())
        raise Violation(msg, sig)


# ------------------------------------------------------------------ RPC
def _recvn(s, n, deadline):
    buf = bytearray()
    while len(buf) < n:
        left = deadline - time.time()
        if left <= 0:
            raise TimeoutError
        s.settimeout(left)
        d = s.recv(min(1 << 20, n - len(buf)))
        if not d:
            raise EOFError
        buf += d
    return bytes(buf)


class Worker:
    """Client of one forked worker."""

    def __init__(self, path):
        self.path = path
        self.sock = None
        self.pid = None

    def _connect(self):
        self.sock = socket.socket(socket.AF_UNIX)
        end = time.time() + 300
        while True:
            try:
                self.sock.connect(self.path)
                break
            except (ConnectionRefusedError, FileNotFoundError, BlockingIOError):
                if time.time() > end:
                    raise HarnessError("worker zygote does not answer")
                time.sleep(0.05)
        try:
            self.pid, = struct.unpack("<I", _recvn(self.sock, 4, end))
        except (EOFError, OSError) as e:
            raise HarnessError("worker did not start: %r" % e)

    def close(self):
        if self.sock:
            self.sock.close()
            self.sock = None
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass

    LIMIT = 2 << 30

    def trim(self):
        """Makes a new process for the next call if this one has grown."""
        if self.sock is None:
            return
        try:
            with open("/proc/%d/statm" % self.pid) as f:
                pages = int(f.read().split()[1])
        except (OSError, ValueError, IndexError):
            return
        if pages * 4096 > self.LIMIT:
            self.close()

    def call(self, fn, timeout=150, **args):
        if self.sock is None:
            self._connect()
        data = pickle.dumps((fn, args), protocol=4)
        deadline = time.time() + timeout
        try:
            self.sock.settimeout(timeout)
            self.sock.sendall(struct.pack("<I", len(data)) + data)
            n, = struct.unpack("<I", _recvn(self.sock, 4, deadline))
            kind, res = pickle.loads(_recvn(self.sock, n, deadline))
        except TimeoutError:
            self.close()
            raise Violation("no answer within %d s (endless loop or hang)"
                            % timeout, "hang")
        except (EOFError, ConnectionError):
            self.close()
            raise Violation("the process running the code under test died",
                            "died")
        except BaseException:
            self.close()        # protocol state unknown (e.g. interrupted)
            raise
        if kind == "ok":
            return res
        if res["origin"] == "REPO":
            raise CodeRaised(res)
        e = HarnessError("worker: %s: %s\n%s" % (
            res["type"], res["msg"], res["tb"]))
        e.kind = res["type"]
        raise e


class Zygote:
    def __init__(self, profile, scratch, env=None, preload=None):
        self.path = os.path.join(scratch, "w.sock")
        e = dict(os.environ)
        e.update({
            "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
            "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
            "VERIF_REPO": REPO, "VERIF_SCRATCH": scratch,
            "PYTHONPATH": "", "PYTHONWARNINGS": "ignore",
            "TMPDIR": scratch,
        })
        e.update(env or {})
        self.log = open(os.path.join(scratch, "worker.log"), "wb")
        self.proc = subprocess.Popen(
            [WORKER_PY, os.path.join(VERIF, "worker", "main.py"), profile,
             self.path], env=e, stdin=subprocess.DEVNULL, stdout=self.log,
            stderr=self.log, cwd=scratch, start_new_session=True)

    def stop(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()


# ------------------------------------------------------------------ property
class Prop:
    """One property's check.  Subclasses fill in the following."""

    id = None
    profile = "transcoder"       # worker profile; None: no worker
    technique = ""
    level_note = ""
    rule = ""
    assumptions = ()
    # tier -> (examples per shard, wall seconds, shards)
    budget = {"quick": (40, 40, 8), "thorough": (4000, 420, 8)}

    def strategy(self, tier):
        return None

    def enumerate(self, tier):
        """Cases always run, in addition to generated ones."""
        return []

    def prepare(self, ctx):
        """Build what the check needs; may set ctx.env and ctx.data."""

    def run(self, case, ctx):
        """Judge one case: raise Violation, or return a dict with
        `nontrivial` (bool) and optionally `tags` (list of str), `n`."""
        raise NotImplementedError

    def finish(self, ctx, stats):
        """After all shards; may raise Violation/HarnessError on statistics."""


class Ctx:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = (
            prop, tier, seed, scratch)
        self.env = {}
        self.data = {}
        self.worker = None
        self.shard = 0

    def call(self, fn, **kw):
        return self.worker.call(fn, **kw)


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


class Shard:
    """Runs in a forked process; writes its result to a pipe."""

    SHRINK_S = 60

    def __init__(self, prop, ctx, shard, nshards, stop_at, flag):
        self.prop, self.ctx, self.shard, self.n = prop, ctx, shard, nshards
        self.stop_at, self.flag = stop_at, flag
        self.evals = 0
        self.hashes = set()
        self.tags = {}
        self.samples = []
        self.fail = None        # (size, case, msg, sig)
        self.fail_t = None
        self.error = None
        self.units = 0
        self.known = {}

    def one(self, case):
        """Runs one case, raising Violation."""
        if self.fail is None and (time.time() > self.stop_at or
                                  os.path.exists(self.flag)):
            raise StopShard()
        if self.fail_t is not None and \
                time.time() > self.fail_t + self.SHRINK_S:
            return
        self.evals += 1
        try:
            info = self.judge(case)
        except Violation as v:
            k = known_match(self.prop.id, v, case)
            if k is not None:
                self.known[k] = self.known.get(k, 0) + 1
                if v.info is None:
                    return
                return self.count(case, v.info)
            size = len(canon(case))
            if self.fail is None or size < self.fail[0]:
                self.fail = (size, case, v.msg, v.sig)
            if self.fail_t is None:
                self.fail_t = time.time()
            raise
        self.count(case, info)

    def judge(self, case):
        """Runs one case.  A result that the oracle cannot even read, twice,
        is one the code under test should not give."""
        bad = None
        died = False
        for _ in range(3):
            if self.ctx.worker is not None:
                self.ctx.worker.trim()
            try:
                return self.prop.run(case, self.ctx) or {}
            except Violation as v:
                # where memory is short, processes are ended from outside
                if v.sig != "died" or died:
                    raise
                died = True
            except SHAPE + (HarnessError,) as e:
                kind = e.kind if isinstance(e, HarnessError) else \
                    type(e).__name__
                if kind not in SHAPE_NAMES or bad and bad[0] != kind:
                    raise
                bad = (kind, e)
        raise Violation("what the code under test gives cannot be "
                        "understood: %s: %s" % (bad[0], str(bad[1])[-1500:]),
                        "malformed:" + bad[0])

    def count(self, case, info):
        self.units += info.get("n", 0)
        for t in info.get("tags", ()):
            self.tags[t] = self.tags.get(t, 0) + 1
        if info.get("nontrivial"):
            h = hashlib.blake2b(canon(case).encode(), digest_size=8).digest()
            if h not in self.hashes:
                self.hashes.add(h)
                if len(self.samples) < 2 and len(canon(case)) < 20000:
                    self.samples.append(case)

    def reduce(self):
        """Hypothesis shrinks what it generated; this shortens the lists of an
        enumerated case, as long as the same thing fails."""
        _, best, _, sig = self.fail
        end = time.time() + self.SHRINK_S / 2

        def lists(x, path=()):
            if isinstance(x, list):
                if len(x) > 1 and (len(x) > 8 or all(
                        isinstance(y, (list, dict)) for y in x)):
                    yield path
                for i, y in enumerate(x):
                    yield from lists(y, path + (i,))
            elif isinstance(x, dict):
                for k, y in x.items():
                    yield from lists(y, path + (k,))

        def at(x, path):
            for k in path:
                x = x[k]
            return x

        def fails(case):
            try:
                self.prop.run(case, self.ctx)
            except Violation as v:
                if v.sig == sig and known_match(self.prop.id, v, case) is None:
                    self.fail = (len(canon(case)), case, v.msg, v.sig)
                    return True
            except Exception:
                pass
            return False

        todo = list(lists(best))
        while todo and time.time() < end:
            path = todo.pop(0)
            try:
                n = len(at(best, path))
            except (IndexError, KeyError, TypeError):
                continue
            step = n // 2
            while step and time.time() < end:
                i = 0
                while i < len(at(best, path)) and time.time() < end:
                    t = json.loads(canon(best))
                    del at(t, path)[i:i + step]
                    if at(t, path) and fails(t):
                        best = t
                    else:
                        i += step
                step //= 2

    def go(self):
        try:
            self._go()
        except StopShard:
            pass
        except Violation:
            pass
        except HarnessError as e:
            self.error = str(e)
        except BaseException as e:
            if self.fail is None:
                self.error = traceback.format_exc()

    def _go(self):
        for i, case in enumerate(self.prop.enumerate(self.ctx.tier)):
            if i % self.n == self.shard:
                try:
                    self.one(case)
                except Violation:
                    self.reduce()
                    raise
        strat = self.prop.strategy(self.ctx.tier)
        if strat is None:
            return
        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase, seed
        nex = self.prop.budget[self.ctx.tier][0]

        @seed(self.ctx.seed * 1000 + self.shard)
        @settings(max_examples=nex, deadline=None, database=None,
                  suppress_health_check=list(HealthCheck),
                  phases=(Phase.generate, Phase.shrink),
                  print_blob=False, report_multiple_bugs=False)
        @given(strat)
        def t(case):
            self.one(case)

        try:
            t()
        except (Violation, StopShard, HarnessError):
            raise
        except BaseException:
            if self.fail is None:
                raise

    def result(self):
        return dict(evals=self.evals, hashes=self.hashes, tags=self.tags,
                    samples=self.samples, fail=self.fail, error=self.error,
                    units=self.units, known=self.known)


# ------------------------------------------------------------------ findings
_KNOWN = None


def load_known():
    """known_findings.txt: lines 'known: property=<id> sig=<sig> <text>'."""
    global _KNOWN
    _KNOWN = []
    try:
        lines = open(os.path.join(VERIF, "known_findings.txt")).read()
    except FileNotFoundError:
        return
    for line in lines.splitlines():
        if line.startswith("known:"):
            _, p, s, text = line.split(None, 3)
            _KNOWN.append((p.split("=", 1)[1], s.split("=", 1)[1], text))


def known_match(pid, v, case):
    for i, (p, s, _) in enumerate(_KNOWN or []):
        if p == pid and s == v.sig:
            return i
    return None


# ------------------------------------------------------------------ main
def make_scratch():
    base = "/tmp"
    d = tempfile.mkdtemp(prefix="vf-", dir=base)
    return d


def shm_dir():
    for b in ("/dev/shm", "/tmp"):
        try:
            st = os.statvfs(b)
            if st.f_bavail * st.f_frsize > 6 << 30:
                return tempfile.mkdtemp(prefix="vf-", dir=b)
        except OSError:
            pass
    return tempfile.mkdtemp(prefix="vf-")


def _child(prop, ctx, k, nsh, stop_at, flag, wfd, zpath):
    os.setpgid(0, 0)
    random.seed(ctx.seed * 1000 + k)
    ctx.shard = k
    if zpath:
        ctx.worker = Worker(zpath)
    sh = Shard(prop, ctx, k, nsh, stop_at, flag)
    sh.go()
    if ctx.worker:
        ctx.worker.close()
    if sh.fail or sh.error:
        try:
            open(flag, "w").close()
        except OSError:
            pass
    with os.fdopen(wfd, "wb") as f:
        pickle.dump(sh.result(), f, protocol=4)


def run_property(prop, tier, seed):
    t0 = time.time()
    load_known()
    scratch = make_scratch()
    ctx = Ctx(prop, tier, seed, scratch)
    ctx.shm = None
    zy = None
    kids = {}
    try:
        prop.prepare(ctx)
        if prop.profile:
            zy = Zygote(prop.profile, scratch, ctx.env)
        nex, wall, nsh = prop.budget[tier]
        nsh = int(os.environ.get("VERIF_SHARDS", nsh))
        stop_at = time.time() + wall
        flag = os.path.join(scratch, "stop")
        sys.stdout.flush()
        for k in range(nsh):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    _child(prop, ctx, k, nsh, stop_at, flag, w,
                           zy.path if zy else None)
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(0)
            os.close(w)
            kids[r] = (pid, bytearray())
        results = []
        hard = stop_at + 330
        while kids:
            rl, _, _ = select.select(list(kids), [], [], 1.0)
            if zy and zy.proc.poll() is not None:
                # nothing can answer any more
                hard = min(hard, time.time() + 20)
            for r in rl:
                d = os.read(r, 1 << 20)
                if d:
                    kids[r][1].extend(d)
                else:
                    pid, buf = kids.pop(r)
                    os.close(r)
                    os.waitpid(pid, 0)
                    results.append(pickle.loads(bytes(buf)) if buf else None)
            if time.time() > hard:
                raise HarnessError("shards did not finish")
        if any(x is None for x in results):
            raise HarnessError("a shard died")
        return collate(prop, ctx, results, t0)
    except HarnessError as e:
        tail = ""
        try:
            tail = open(os.path.join(scratch, "worker.log"), "rb").read()[
                -3000:].decode("latin1")
        except OSError:
            pass
        print("ERROR property=%s %s\n%s" % (prop.id, e, tail))
        return 2
    except Violation as v:
        # raised while preparing: the tree cannot even be built/loaded
        return report_violation(prop, ctx, {"prepare": True}, v.msg, v.sig, t0,
                                [])
    finally:
        for r, (pid, _) in kids.items():
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
        if zy:
            zy.stop()
        shutil.rmtree(scratch, ignore_errors=True)
        if ctx.shm:
            shutil.rmtree(ctx.shm, ignore_errors=True)


def replay_path(pid, case):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.blake2b(canon(case).encode(), digest_size=6).hexdigest()
    return os.path.join(d, "%s-%s.json" % (pid, h))


def evidence(prop, ctx, cov, t0, violations):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {
        "property": prop.id, "tier": ctx.tier, "seed": ctx.seed,
        "level": "exploration", "coverage": cov,
        "assumptions": list(prop.assumptions),
        "wall_s": round(time.time() - t0, 2), "violations": violations,
    }
    p = os.path.join(d, prop.id + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def _shorten(x, depth=0):
    """Bounds a sample for the evidence file."""
    if isinstance(x, str) and len(x) > 200:
        return x[:200] + "...(%d chars)" % len(x)
    if isinstance(x, list):
        y = [_shorten(i, depth + 1) for i in x[:40]]
        return y + ["...(%d items)" % len(x)] if len(x) > 40 else y
    if isinstance(x, dict):
        return {k: _shorten(v, depth + 1) for k, v in x.items()}
    return x


def coverage(prop, ctx, results):
    hashes = set().union(*[r["hashes"] for r in results]) if results else set()
    tags = {}
    for r in results:
        for k, v in r["tags"].items():
            tags[k] = tags.get(k, 0) + v
    samples = [_shorten(s) for r in results for s in r["samples"]][:4]
    cov = {
        "evaluations": sum(r["evals"] for r in results),
        "distinct_nontrivial": len(hashes),
        "rule": prop.rule,
        "samples": samples,
        "classes": dict(sorted(tags.items())),
    }
    units = sum(r["units"] for r in results)
    if units:
        cov["judged_items"] = units
    return cov


def report_violation(prop, ctx, case, msg, sig, t0, results):
    p = replay_path(prop.id, case)
    with open(p, "w") as f:
        json.dump({"property": prop.id, "case": case, "message": msg,
                   "sig": sig, "seed": ctx.seed, "tier": ctx.tier}, f,
                  indent=1)
    cov = coverage(prop, ctx, results)
    if not cov["samples"]:
        cov["samples"] = [_shorten(case)]
    evidence(prop, ctx, cov, t0, 1)
    print("failure: %s [%s]" % (msg[:3000], sig))
    print("case: %s" % canon(_shorten(case))[:2000])
    print("VIOLATION property=%s replay=%s" % (prop.id, p))
    return 1


def collate(prop, ctx, results, t0):
    fails = [r["fail"] for r in results if r["fail"]]
    if fails:
        size, case, msg, sig = min(fails, key=lambda f: f[0])
        return report_violation(prop, ctx, case, msg, sig, t0, results)
    errs = [r["error"] for r in results if r["error"]]
    if errs:
        raise HarnessError(errs[0])
    prop.finish(ctx, results)
    cov = coverage(prop, ctx, results)
    known = {}
    for r in results:
        for k, n in r["known"].items():
            known[k] = known.get(k, 0) + n
    for k, n in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop.id, _KNOWN[k][2]))
    if known:
        cov["known_finding_cases"] = sum(known.values())
    if cov["evaluations"] == 0 or cov["distinct_nontrivial"] == 0:
        raise HarnessError("nothing was explored: %r" % cov)
    evidence(prop, ctx, cov, t0, 0)
    print("OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (
        prop.id, cov["evaluations"], cov["distinct_nontrivial"],
        time.time() - t0))
    return 0
