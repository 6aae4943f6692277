import os
import random
import resource
import select
import shutil
import socket
import struct
import subprocess
import tempfile
import time

from hypothesis import strategies as st

from .. import core

# more than the socket buffers hold
BIG = 12 << 20
SIZES = [0, 1, 2, 2047, 2048, 2049, 65535, 65536, 65537, 131072, 212992,
         1 << 20, (1 << 20) + 1]


def size():
    return st.one_of(st.sampled_from(SIZES), st.integers(0, 5000),
                     st.integers(0, 3 << 20), st.just(BIG))


@st.composite
def client(draw):
    k = draw(st.sampled_from(["read", "read", "slow", "slow", "half",
                              "leave", "reset", "reset", "leave"]))
    c = {"kind": k}
    if k in ("leave", "reset"):
        c["after"] = draw(st.one_of(st.just(0), st.integers(0, 4000),
                                    st.integers(0, 3 << 20)))
        c["wait"] = draw(st.sampled_from([0, 0, 1, 5, 30]))
    else:
        c["chunk"] = draw(st.sampled_from([1, 100, 1460, 2048, 65536,
                                           1 << 20]))
        c["buf"] = draw(st.sampled_from([0, 0, 2304, 8192]))
    if k == "slow":
        # pauses (in ms) between the first reads
        c["pause"] = draw(st.lists(st.sampled_from([0, 1, 5, 20, 60]),
                                   min_size=1, max_size=6))
        c["chunk"] = max(100, c["chunk"])
    if k != "leave" and draw(st.integers(0, 11)) == 0:
        # stops reading for so many ms after so many bytes
        c["stall"] = [draw(st.one_of(st.just(0), st.integers(0, 3 << 20))),
                      draw(st.sampled_from([200, 1000, 2200]))]
    return c


def step():
    group = st.lists(client(), min_size=1, max_size=4).map(
        lambda c: ["clients", c])
    return st.one_of(group, group, group, group, group,
                     size().map(lambda n: ["rewrite", n]),
                     st.just(["restart"]))


def case():
    return st.builds(lambda n, seed, steps: {
        "size": n, "seed": seed, "steps": steps}, size(),
        st.integers(0, 10 ** 6), st.lists(step(), min_size=1, max_size=5))


def usual_limits():
    """As many open files as a process usually gets."""
    hard = resource.getrlimit(resource.RLIMIT_NOFILE)[1]
    n = 1024 if hard == resource.RLIM_INFINITY else min(1024, hard)
    resource.setrlimit(resource.RLIMIT_NOFILE, (n, hard))


class Server:
    def __init__(self, path, port, scratch):
        self.path, self.scratch, self.port = path, scratch, port
        self.proc = None

    def start(self, same_port=False):
        for attempt in range(8):
            arg = []
            if self.port != "default":
                if not same_port:
                    s = socket.socket()
                    s.bind(("127.0.0.1", 0))
                    self.port = s.getsockname()[1]
                    s.close()
                arg = ["--port", str(self.port)]
            self.log = open(os.path.join(self.scratch, "server.log"), "w+b")
            self.proc = subprocess.Popen(
                [core.WORKER_PY, os.path.join(core.REPO, "server",
                                              "server.py"), self.path] + arg,
                preexec_fn=usual_limits,
                stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log,
                cwd=self.scratch, start_new_session=True,
                env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
            end = time.time() + 30
            while time.time() < end:
                if self.proc.poll() is not None:
                    break
                if self.listening():
                    return
                time.sleep(0.01)
            self.stop()
            if b"in use" in self.text() and not same_port and \
                    self.port != "default":
                continue
            break
        raise core.Violation("the server does not start%s: %s" % (
            " again" if same_port else "",
            self.text()[-600:].decode("latin1")), "start")

    def number(self):
        return 1977 if self.port == "default" else self.port

    def listening(self):
        want = "%04X" % self.number()
        for f in ("/proc/net/tcp", "/proc/net/tcp6"):
            try:
                for line in open(f).read().splitlines()[1:]:
                    p = line.split()
                    if p[3] == "0A" and p[1].split(":")[1] == want:
                        return True
            except OSError:
                return True
        return False

    def text(self):
        return open(self.log.name, "rb").read()

    def stop(self):
        if self.proc:
            if self.proc.poll() is None:
                self.proc.kill()
            self.proc.wait()
            self.log.close()


class Client:
    def __init__(self, spec, port, i):
        self.spec, self.i = spec, i
        self.s = socket.socket()
        if spec.get("buf"):
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF,
                              spec["buf"])
        self.s.settimeout(20)
        try:
            # the player is another machine: any address of this one will do
            self.s.connect(("127.0.0.%d" % (i % 3 + 1), port))
        except OSError as e:
            raise core.Violation("client %d cannot connect: %r" % (i, e),
                                 "connect")
        self.data = bytearray()
        self.done = False
        self.wake = 0
        self.pauses = list(spec.get("pause", ()))
        self.stalls = True
        if "stall" in spec and not spec["stall"][0]:
            self.stalls = False
            self.wake = time.time() + spec["stall"][1] / 1000.
        if spec["kind"] == "half":
            self.s.shutdown(socket.SHUT_WR)
        self.leaves = spec["kind"] in ("leave", "reset")
        if self.leaves and spec["after"] == 0:
            self.leave()

    def leave(self):
        time.sleep(self.spec["wait"] / 1000.)
        if self.spec["kind"] == "reset":
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER,
                              struct.pack("ii", 1, 0))
        self.s.close()
        self.done = True

    def read(self):
        if self.pauses:
            self.wake = time.time() + self.pauses.pop(0) / 1000.
        n = self.spec.get("chunk", 4096)
        if n < 1000 and len(self.data) > 3000:
            n = 65536
        try:
            d = self.s.recv(n)
        except OSError as e:
            raise core.Violation("client %d (%s): connection broken after "
                                 "%d bytes: %r" % (
                                     self.i, self.spec, len(self.data), e),
                                 "broken")
        self.data += d
        stall = self.spec.get("stall")
        if stall and self.stalls and len(self.data) >= stall[0]:
            self.stalls = False
            self.wake = time.time() + stall[1] / 1000.
        if not d:
            self.s.close()
            self.done = True
        elif self.leaves and len(self.data) >= self.spec["after"]:
            self.leave()


class C30(core.Prop):
    id = "C30"
    profile = None
    technique = ("stateful generation of clients (slow, early leaving, "
                 "resetting, concurrent), file changes and restarts against "
                 "the real server process over loopback")
    rule = ("files of 0 to 12 MB, groups of up to 4 concurrent clients, "
            "clients that stop reading for up to a minute, 5000 (thorough: 20000) "
            "clients one after another; "
            "non-trivial: two or more clients of which one reads to the end")
    budget = {"quick": (60, 40, 8), "thorough": (2000, 420, 8)}
    assumptions = ("clients send nothing, as the player",
                   "loopback TCP, on several addresses, stands in for the "
                   "network")

    def enumerate(self, tier):
        rd = {"kind": "read", "chunk": 65536, "buf": 0}
        # a paused player does not read for as long as the user likes
        stalls = [3, 62, 12, 31, 1, 6] + (
            [122, 302] if tier == "thorough" else [])
        for i, sec in enumerate(stalls):
            yield {"size": BIG, "seed": sec, "steps": [["clients", [dict(
                rd, buf=4096 if i % 2 else 0,
                stall=[0 if i % 2 else 100000, sec * 1000])]]]}
        yield {"size": 3000, "seed": 1, "steps": [
            ["crowd", 5000 if tier == "quick" else 20000]]}
        yield {"size": 5000, "seed": 1, "default": True,
               "steps": [["clients", [rd]]]}
        for n in SIZES:
            yield {"size": n, "seed": n, "steps": [
                ["clients", [rd]], ["rewrite", (n * 7 + 3) % 90000],
                ["clients", [rd, rd]], ["restart"], ["clients", [rd]]]}
        for k in ("leave", "reset"):
            for a in (0, 1, 100000):
                yield {"size": 2 << 20, "seed": 3, "steps": [
                    ["clients", [{"kind": k, "after": a, "wait": 1}] * 3],
                    ["clients", [rd]]]}

    def strategy(self, tier):
        return case()

    def run(self, case, ctx):
        d = tempfile.mkdtemp(dir=ctx.scratch)
        path = os.path.join(d, "video.a2m")
        if case.get("default"):
            s = socket.socket()
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            try:
                s.bind(("0.0.0.0", 1977))
            except OSError:
                return dict(nontrivial=False)
            finally:
                s.close()
        srv = Server(path, "default" if case.get("default") else None, d)
        try:
            return self.play(case, srv, path)
        finally:
            srv.stop()
            shutil.rmtree(d, ignore_errors=True)

    def play(self, case, srv, path):
        rnd = random.Random(case["seed"])
        data = rnd.randbytes(case["size"])
        with open(path, "wb") as f:
            f.write(data)
        srv.start()
        count = whole = 0
        for op in case["steps"]:
            if op[0] == "rewrite":
                data = rnd.randbytes(op[1])
                with open(path, "wb") as f:
                    f.write(data)
            elif op[0] == "crowd":
                kinds = random.Random(op[1])
                for _ in range(op[1]):
                    k = kinds.choice(["read"] * 5 + ["leave", "reset"])
                    c = Client({"kind": k, "after": 0, "wait": 0} if k !=
                               "read" else {"kind": k, "chunk": 65536},
                               srv.number(), count)
                    count += 1
                    try:
                        self.pump([c], srv)
                    finally:
                        c.s.close()
                    if k == "read":
                        whole += 1
                        core.check(c.data == data, "client %d got %d bytes "
                                   "of %d or other ones" % (
                                       c.i, len(c.data), len(data)), "bytes")
            elif op[0] == "restart":
                srv.stop()
                srv.start(same_port=True)
            else:
                cs = []
                try:
                    for c in op[1]:
                        cs.append(Client(c, srv.number(), count))
                        count += 1
                    self.pump(cs, srv)
                finally:
                    for c in cs:
                        c.s.close()
                for c in cs:
                    if c.leaves:
                        core.check(data.startswith(bytes(c.data)),
                                   "client %d got other bytes" % c.i,
                                   "bytes")
                        continue
                    whole += 1
                    if c.data != data:
                        n = next((i for i, (a, b) in enumerate(
                            zip(c.data, data)) if a != b),
                            min(len(c.data), len(data)))
                        raise core.Violation(
                            "client %d (%s) got %d bytes of %d, different "
                            "from byte %d on" % (c.i, c.spec, len(c.data),
                                                 len(data), n), "bytes")
        core.check(srv.proc.poll() is None, "the server has ended: %s" %
                   srv.text()[-600:].decode("latin1"), "ended")
        return dict(nontrivial=count > 1 and whole > 0, n=count, tags=sorted(
            {c["kind"] for o in case["steps"] if o[0] == "clients"
             for c in o[1]} | {o[0] for o in case["steps"]}))

    def pump(self, cs, srv):
        last = time.time()
        while True:
            left = [c for c in cs if not c.done]
            if not left:
                return
            now = time.time()
            # a server that serves one client at a time may have to wait
            # for the ones that are not reading
            last = max([last] + [min(c.wake, now) for c in left])
            ready = [c for c in left if c.wake <= now]
            wait = 0.25 if not ready else 1.0
            if len(ready) < len(left):
                wait = max(0.0, min([c.wake for c in left
                                     if c.wake > now] + [now + wait]) - now)
            rl, _, _ = select.select([c.s for c in ready], [], [], wait)
            for c in ready:
                if c.s in rl:
                    c.read()
                    last = time.time()
            if time.time() > last + 20:
                raise core.Violation(
                    "nothing arrives any more at clients %r (%r bytes so "
                    "far)%s" % ([c.i for c in left],
                                [len(c.data) for c in left],
                                "" if srv.proc.poll() is None else
                                "; the server has ended"), "hang")


PROP = C30()
