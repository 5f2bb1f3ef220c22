"""A controlled MPI: an implementation of the part of mpi4py that Vayesta can use in which every communication call is a
request to a controller, which decides when it completes.  The controller is therefore the scheduler: it explores, by
re-execution, every order in which pending one-sided operations can take effect (dynamic partial-order reduction: only
orders of *dependent* operations are distinguished), under each of the buffering behaviours MPI permits, and it detects

  deadlock            every rank is blocked or has ended and no pending call can complete
  mismatched calls    the n-th collective call of two ranks differs in kind, root, window or size
  lost messages       messages still in flight when all ranks have ended
  RMA errors          access to a freed window, outside of it, or without a lock; double locks; locks never released
  failures            an exception on any rank

Message matching without wildcards is deterministic, so point-to-point and collective calls commute with everything
any other rank can do and are completed as soon as they can be; their only freedom is *when a rank may leave the call*:

  mode.sends = "eager"  a send returns at once          "sync"  it returns when the receive is posted
  mode.colls = "early"  bcast roots and non-roots of reduce/gather leave at once    "sync"  all leave together
  mode.rma   = "early"  put/get take effect at the call "late"  they take effect at the unlock (both are legal)

Two transports: threads in one process (ThreadRun; the ranks share the interpreter and use separate objects) and
processes (ProcessRun; each rank is a forked process which imports vayesta with this module as its mpi4py).
"""

import itertools
import os
import pickle
import queue
import signal
import sys
import threading
import time
import traceback
import types


class MPIError(Exception):
    pass


class Aborted(BaseException):
    """The controller ended the execution."""


class Mode:
    def __init__(self, sends="eager", colls="early", rma="late"):
        self.sends, self.colls, self.rma = sends, colls, rma

    def key(self):
        return "%s/%s/%s" % (self.sends, self.colls, self.rma)


def modes(full=False):
    if full:
        return [Mode(*x) for x in itertools.product(("eager", "sync"), ("early", "sync"), ("late", "early"))]
    return [Mode("eager", "early", "late"), Mode("sync", "sync", "early")]


# ---------------------------------------------------------------------------------------------------------------------
# Controller
# ---------------------------------------------------------------------------------------------------------------------

RMA = ("lock", "unlock", "put", "get", "flush")


class World:
    """State of the communication system.  post(rank, op) registers a call; step functions complete calls."""

    def __init__(self, size, mode):
        self.size, self.mode = size, mode
        self.pending = {}  # rank -> op
        self.ncoll = [0] * size
        self.colls = {}  # index -> dict(kind, root, extra, data={rank: bytes}, left=set())
        self.mail = {}  # (src, dst, tag) -> list of bytes
        self.wins = {}  # id -> dict(mem={rank: bytearray}, locks={target: {rank: type}}, freed)
        self.nwin = 0
        self.errors = []
        self.trace = []  # executed operations (for evidence)
        self.clock = [[0] * size for _ in range(size)]  # vector clocks
        self.mailclock = {}
        self.deferred = {}  # (rank, win, target) -> list of put/get

    def error(self, what):
        self.errors.append(what)

    def join(self, ranks):
        new = [max(self.clock[r][i] for r in ranks) for i in range(self.size)]
        for r in ranks:
            self.clock[r] = list(new)

    # -- calls that commute with everything: complete them as soon as they can be

    def post(self, rank, op):
        assert rank not in self.pending
        self.pending[rank] = op
        self.clock[rank][rank] += 1
        if op[0] == "coll":
            _, kind, root, extra, data = op
            i = self.ncoll[rank]
            self.ncoll[rank] += 1
            c = self.colls.setdefault(i, dict(kind=kind, root=root, extra=extra, data={}, clock={}, left=set()))
            if (c["kind"], c["root"], c["extra"]) != (kind, root, extra):
                self.error(
                    "collective call %d does not match: rank %d calls %s(root=%s, %s), another rank %s(root=%s, %s)"
                    % (i, rank, kind, root, extra, c["kind"], c["root"], c["extra"])
                )
            c["data"][rank] = data
            c["clock"][rank] = list(self.clock[rank])
            self.pending[rank] = ("coll", kind, root, extra, i)
        elif op[0] in ("send", "ssend"):
            _, dest, tag, data = op
            if not (0 <= dest < self.size):
                self.error("rank %d sends to invalid rank %d" % (rank, dest))
            self.mail.setdefault((rank, dest, tag), []).append((data, list(self.clock[rank])))

    def auto(self):
        """Complete every enabled deterministic call; yields (rank, reply)."""
        progress = True
        while progress:
            progress = False
            for rank in sorted(self.pending):
                r = self.try_auto(rank)
                if r is not None:
                    progress = True
                    yield rank, r[0]

    def try_auto(self, rank):
        op = self.pending[rank]
        if op[0] == "coll":
            _, kind, root, extra, i = op
            c = self.colls[i]
            full = len(c["data"]) == self.size
            early = self.mode.colls == "early"
            if kind in ("bcast", "scatter"):
                ok = full or (early and (rank == root or root in c["data"]))
                src = [root]
            elif kind in ("reduce", "gather"):
                ok = full or (early and rank != root)
                src = list(range(self.size)) if rank == root else [rank]
            else:
                ok = full
                src = list(range(self.size))
            if not ok:
                return None
            for s in src:
                self.clock[rank] = [max(a, b) for a, b in zip(self.clock[rank], c["clock"][s])]
            if kind == "bcast":
                reply = c["data"][root]
            elif kind == "scatter":
                reply = c["data"][root]
            elif kind in ("reduce", "gather"):
                reply = [c["data"][r] for r in range(self.size)] if rank == root else None
            elif kind == "winalloc":
                if "win" not in c:
                    c["win"] = self.nwin
                    self.nwin += 1
                    mem = {}
                    for r in range(self.size):
                        d = c["data"][r]
                        mem[r] = bytearray(b"\xa5" * d) if isinstance(d, int) else bytearray(d)
                    self.wins[c["win"]] = dict(mem=mem, locks={r: {} for r in range(self.size)}, freed=False)
                reply = c["win"]
            elif kind == "winfree":
                w = self.wins[extra]
                if "done" not in c:
                    c["done"] = True
                    if w["freed"]:
                        self.error("window %d freed twice" % extra)
                    if any(w["locks"].values()):
                        self.error("window %d freed while locked" % extra)
                    w["freed"] = True
                reply = None
            elif kind == "fence":
                reply = None
                for key in [k for k in self.deferred if k[1] == extra]:
                    self.flush(*key)
                reply = None
            elif kind == "barrier":
                reply = None
            else:
                reply = [c["data"][r] for r in range(self.size)]
            c["left"].add(rank)
            if len(c["left"]) == self.size:
                c["data"] = {}
                del self.colls[i]
            del self.pending[rank]
            self.trace.append((rank, kind))
            return (reply,)
        if op[0] in ("send", "ssend"):
            _, dest, tag, _ = op
            if op[0] == "send" and self.mode.sends == "eager":
                ok = True
            else:  # complete when it has been taken
                ok = not any(d is op[3] for d, _ in self.mail.get((rank, dest, tag), []))
            if not ok:
                return None
            del self.pending[rank]
            self.trace.append((rank, "send"))
            return (None,)
        if op[0] == "recv":
            _, src, tag = op
            box = self.mail.get((src, rank, tag))
            if not box:
                return None
            data, clock = box.pop(0)
            self.clock[rank] = [max(a, b) for a, b in zip(self.clock[rank], clock)]
            del self.pending[rank]
            self.trace.append((rank, "recv"))
            return (data,)
        return None

    # -- one-sided operations: the branching points

    def rma_enabled(self, rank):
        op = self.pending.get(rank)
        if op is None or op[0] not in RMA:
            return False
        if op[0] == "lock":
            _, win, target, kind = op
            w = self.wins.get(win)
            if w is None or w["freed"]:
                return True  # raises
            held = {r: k for r, k in w["locks"][target].items() if r != rank}
            if rank in w["locks"][target]:
                return True  # raises
            if kind == "shared":
                return all(k == "shared" for k in held.values())
            return not held
        return True

    def signature(self, rank):
        """(name, window, target, kind of lock, changes memory) of the pending one-sided operation of a rank."""
        op = self.pending[rank]
        name, win, target = op[:3]
        w = self.wins.get(win)
        held = op[3] if name == "lock" else (w["locks"].get(target, {}).get(rank) if w else None)
        puts = any(d[0] == "put" for d in self.deferred.get((rank, win, target), []))
        return (name, win, target, held, name == "put" or (name in ("unlock", "flush") and puts))

    def rma_step(self, rank):
        """Execute the pending one-sided operation of rank; reply ('ok', data) or ('err', message)."""
        op = self.pending.pop(rank)
        name, win, target = op[:3]
        self.trace.append((rank, name, win, target))
        w = self.wins.get(win)
        if w is None or w["freed"]:
            return ("err", "%s on a window that does not exist or was freed" % name)
        if not (0 <= target < self.size):
            return ("err", "invalid target rank")
        locks = w["locks"][target]
        if name == "lock":
            if rank in locks:
                return ("err", "lock while already holding it")
            locks[rank] = op[3]
            return ("ok", None)
        if rank not in locks:
            return ("err", "%s without a lock" % name)
        if name in ("unlock", "flush"):
            out = self.flush(rank, win, target)
            if name == "unlock":
                del locks[rank]
            return ("ok", out)
        if name == "put":
            _, _, _, disp, data = op
            if disp + len(data) > len(w["mem"][target]):
                return ("err", "put of %d bytes outside of a window of %d" % (len(data), len(w["mem"][target])))
        if name == "get":
            _, _, _, disp, n = op
            if disp + n > len(w["mem"][target]):
                return ("err", "get of %d bytes outside of a window of %d" % (n, len(w["mem"][target])))
        self.deferred.setdefault((rank, win, target), []).append(op)
        if self.mode.rma == "early":
            return ("ok", self.flush(rank, win, target))
        return ("ok", None)

    def flush(self, rank, win, target):
        out = []
        mem = self.wins[win]["mem"][target]
        for op in self.deferred.pop((rank, win, target), []):
            if op[0] == "put":
                mem[op[3] : op[3] + len(op[4])] = op[4]
            else:
                out.append(bytes(mem[op[3] : op[3] + op[4]]))
        return out

    def at_end(self):
        for key, box in self.mail.items():
            for _ in box:
                self.error("message from rank %d to rank %d with tag %s was never received" % key)
        for i, c in self.colls.items():
            self.error("collective call %d (%s) was not made by every rank" % (i, c["kind"]))
        for i, w in self.wins.items():
            if any(w["locks"].values()):
                self.error("window %d is still locked at the end" % i)
        return sum(1 for w in self.wins.values() if not w["freed"])


def dependent(a, b):
    """Two one-sided operations (name, window, target, lock held, writes) of different ranks that do not commute."""
    if a[1:3] != b[1:3]:
        return False
    if a[3] == "shared" and b[3] == "shared":
        return a[4] or b[4]
    return True


class Explorer:
    """Stateless depth-first exploration (dynamic partial-order reduction) of the orders of one-sided operations."""

    def __init__(self, execute, limit=20000):
        self.execute = execute  # execute(prefix) -> Execution with .nodes, .error
        self.limit = limit
        self.schedules = 0
        self.transitions = 0
        self.truncated = False

    def run(self, judge):
        stack = []  # nodes: dict(enabled=[...], chosen=rank, backtrack=set, done=set)
        while True:
            prefix = [n["chosen"] for n in stack]
            ex = self.execute(prefix)
            self.schedules += 1
            self.transitions += len(ex.trace)
            if judge(ex):
                return  # a violation was found: its schedule is the counterexample
            # extend the stack by the newly executed nodes
            for k, node in enumerate(ex.nodes):
                if k < len(stack):
                    stack[k]["op"] = node["op"]
                    stack[k]["clock"] = node["clock"]
                    continue
                stack.append(dict(node, backtrack={node["chosen"]}, done=set()))
            # race analysis: a pending operation of rank p at node k races with an earlier dependent, unordered one
            for k, node in enumerate(ex.nodes):
                for p, op in node["pending"].items():
                    for i in range(k - 1, -1, -1):
                        prev = ex.nodes[i]
                        q = prev["chosen"]
                        if q == p or not dependent(prev["op"], op):
                            continue
                        # is prev ordered before p's operation (through synchronisation)?
                        if node["pclock"][p][q] >= prev["clock"][q]:
                            continue
                        cand = stack[i]["enabled"]
                        if p in cand:
                            stack[i]["backtrack"].add(p)
                        else:
                            stack[i]["backtrack"].update(cand)
                        break
            # backtrack
            while stack:
                n = stack[-1]
                n["done"].add(n["chosen"])
                left = sorted(n["backtrack"] - n["done"])
                if left:
                    n["chosen"] = left[0]
                    break
                stack.pop()
            if not stack:
                return
            if self.schedules >= self.limit:
                self.truncated = True
                return


class Execution:
    def __init__(self):
        self.nodes = []
        self.trace = []
        self.errors = []
        self.results = {}
        self.failures = {}
        self.leaked = 0


def drive(size, mode, prefix, recv, reply, alive):
    """Run the controller: recv() -> (rank, message) blocking; reply(rank, data)."""
    w = World(size, mode)
    ex = Execution()
    done = set()
    running = set(range(size))

    def give(rank, data):
        running.add(rank)
        reply(rank, data)

    while True:
        # collect calls until no rank is running
        while running:
            rank, msg = recv()
            running.discard(rank)
            if msg[0] == "done":
                done.add(rank)
                ex.results[rank] = msg[1]
            elif msg[0] == "fail":
                done.add(rank)
                ex.failures[rank] = msg[1]
                ex.errors.append("rank %d failed: %s" % (rank, msg[1]))
                break
            else:
                w.post(rank, msg)
                if w.errors:
                    break
                for r, data in w.auto():
                    give(r, ("ok", data))
        if ex.failures or w.errors:
            break
        if len(done) == size:
            break
        enabled = [r for r in sorted(w.pending) if w.rma_enabled(r)]
        if not enabled:
            ex.errors.append(
                "deadlock: "
                + "; ".join(
                    "rank %d %s" % (r, "ended" if r in done else "is blocked in " + describe(w.pending[r]))
                    for r in range(size)
                )
            )
            break
        k = len(ex.nodes)
        choice = prefix[k] if k < len(prefix) else enabled[0]
        if choice not in enabled:
            ex.errors.append("internal: schedule prefix cannot be followed (non-deterministic program)")
            break
        op = w.pending[choice]
        ex.nodes.append(
            dict(
                enabled=enabled,
                chosen=choice,
                op=w.signature(choice),
                pending={r: w.signature(r) for r in w.pending if w.pending[r][0] in RMA},
                pclock={r: list(w.clock[r]) for r in w.pending},
                clock=list(w.clock[choice]),
            )
        )
        give(choice, w.rma_step(choice))
    if not ex.errors and not w.errors:
        ex.leaked = w.at_end()
    ex.errors += w.errors
    ex.trace = w.trace
    ex.nwin = w.nwin
    return ex


def describe(op):
    if op[0] == "coll":
        return "%s(root=%s)" % (op[1], op[2])
    if op[0] in ("send", "ssend"):
        return "send(dest=%s, tag=%s)" % (op[1], op[2])
    if op[0] == "recv":
        return "recv(source=%s, tag=%s)" % (op[1], op[2])
    return str(op[:4])


# ---------------------------------------------------------------------------------------------------------------------
# mpi4py look-alike
# ---------------------------------------------------------------------------------------------------------------------


def membytes(x):
    """The bytes mpi4py would transfer for an array: its memory, if C- or Fortran-contiguous; an error otherwise."""
    import numpy as np

    if isinstance(x, (list, tuple)):
        x = x[0]
    if x is None:
        return b""
    a = np.asarray(x)
    if a.flags.c_contiguous:
        return a.tobytes(order="C")
    if a.flags.f_contiguous:
        return a.T.tobytes(order="C")
    raise BufferError("ndarray is not contiguous")


def fillbytes(x, data):
    import numpy as np

    if isinstance(x, (list, tuple)):
        x = x[0]
    if not isinstance(x, np.ndarray):
        x[: len(data)] = data
        return
    if not x.flags.writeable:
        raise BufferError("buffer is read-only")
    if x.flags.c_contiguous:
        v = x.reshape(-1)
    elif x.flags.f_contiguous:
        v = x.T.reshape(-1)
    else:
        raise BufferError("ndarray is not contiguous")
    if len(data) > v.nbytes:
        raise MPIError("message truncated: %d bytes for a buffer of %d" % (len(data), v.nbytes))
    flat = np.frombuffer(data, dtype=v.dtype)
    v[: flat.size] = flat


class Op:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __call__(self, a, b):
        return self.fn(a, b)

    def __repr__(self):
        return "MPI." + self.name


SUM = Op("SUM", lambda a, b: a + b)
PROD = Op("PROD", lambda a, b: a * b)
LAND = Op("LAND", lambda a, b: bool(a) & bool(b))
LOR = Op("LOR", lambda a, b: bool(a) | bool(b))
LXOR = Op("LXOR", lambda a, b: bool(a) ^ bool(b))
BAND = Op("BAND", lambda a, b: a & b)
BOR = Op("BOR", lambda a, b: a | b)
MAX = Op("MAX", lambda a, b: b if b > a else a)
MIN = Op("MIN", lambda a, b: b if b < a else a)
OPS = dict((o.name, o) for o in (SUM, PROD, LAND, LOR, LXOR, BAND, BOR, MAX, MIN))
IN_PLACE = object()


class Request:
    def __init__(self, fn=None, value=None):
        self.fn, self.value = fn, value

    def wait(self, status=None):
        if self.fn is not None:
            self.value = self.fn()
            self.fn = None
        return self.value

    Wait = wait

    @staticmethod
    def waitall(reqs, statuses=None):
        return [r.wait() for r in reqs]

    Waitall = waitall


class Comm:
    def __init__(self, call, rank, size):
        self._call, self.rank, self.size = call, rank, size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def __len__(self):
        return self.size

    def _c(self, kind, root=None, extra=None, data=None):
        st, val = self._call(("coll", kind, root, extra, data))
        if st == "err":
            raise MPIError(val)
        return val

    def Abort(self, errorcode=0):
        raise MPIError("Abort(%d)" % errorcode)

    def Barrier(self):
        self._c("barrier")

    barrier = Barrier

    def bcast(self, obj, root=0):
        data = pickle.dumps(obj, -1) if self.rank == root else None
        out = self._c("bcast", root, "object", data)
        return obj if self.rank == root else pickle.loads(out)

    def Bcast(self, buf, root=0):
        data = membytes(buf) if self.rank == root else None
        n = len(membytes(buf))
        out = self._c("bcast", root, "buffer", data)
        if len(out) != n and self.rank != root:
            raise MPIError("Bcast: %d bytes sent, buffer of %d" % (len(out), n))
        if self.rank != root:
            fillbytes(buf, out)

    def _fold(self, parts, op):
        it = iter(parts)
        acc = pickle.loads(next(it))
        for p in it:
            acc = op(acc, pickle.loads(p))
        return acc

    def allreduce(self, sendobj, op=SUM):
        return self._fold(self._c("allreduce", None, op.name, pickle.dumps(sendobj, -1)), op)

    def reduce(self, sendobj, op=SUM, root=0):
        out = self._c("reduce", root, op.name, pickle.dumps(sendobj, -1))
        return self._fold(out, op) if self.rank == root else None

    def gather(self, sendobj, root=0):
        out = self._c("gather", root, None, pickle.dumps(sendobj, -1))
        return [pickle.loads(x) for x in out] if self.rank == root else None

    def allgather(self, sendobj):
        return [pickle.loads(x) for x in self._c("allgather", None, None, pickle.dumps(sendobj, -1))]

    def scatter(self, sendobj, root=0):
        data = pickle.dumps(list(sendobj), -1) if self.rank == root else None
        return pickle.loads(self._c("scatter", root, None, data))[self.rank]

    def alltoall(self, sendobj):
        parts = self._c("alltoall", None, None, pickle.dumps(list(sendobj), -1))
        return [pickle.loads(x)[self.rank] for x in parts]

    def _buf(self, x):
        import numpy as np

        return np.asarray(x[0] if isinstance(x, (list, tuple)) else x)

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        src = self._buf(recvbuf if sendbuf is IN_PLACE else sendbuf)
        out = self._fold(self._c("allreduce", None, op.name + "buf%d" % src.nbytes, pickle.dumps(src, -1)), op)
        self._buf(recvbuf)[...] = out

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        src = self._buf(recvbuf if sendbuf is IN_PLACE else sendbuf)
        out = self._c("reduce", root, op.name + "buf%d" % src.nbytes, pickle.dumps(src, -1))
        if self.rank == root:
            self._buf(recvbuf)[...] = self._fold(out, op)

    def Allgather(self, sendbuf, recvbuf):
        parts = self._c("allgather", None, "buf", membytes(sendbuf))
        fillbytes(recvbuf, b"".join(parts))

    def Gather(self, sendbuf, recvbuf, root=0):
        parts = self._c("gather", root, "buf", membytes(sendbuf))
        if self.rank == root:
            fillbytes(recvbuf, b"".join(parts))

    def _p(self, op):
        st, val = self._call(op)
        if st == "err":
            raise MPIError(val)
        return val

    def send(self, obj, dest, tag=0):
        self._p(("send", dest, ("o", tag), pickle.dumps(obj, -1)))

    def ssend(self, obj, dest, tag=0):
        self._p(("ssend", dest, ("o", tag), pickle.dumps(obj, -1)))

    def recv(self, buf=None, source=None, tag=None, status=None):
        if source is None or source < 0 or tag is None or tag < 0:
            raise NotImplementedError("wildcard receive is outside of the modelled MPI")
        return pickle.loads(self._p(("recv", source, ("o", tag))))

    def isend(self, obj, dest, tag=0):
        self.send_now(obj, dest, tag)
        return Request()

    def send_now(self, obj, dest, tag):
        self._p(("send", dest, ("o", tag), pickle.dumps(obj, -1)))

    def irecv(self, buf=None, source=None, tag=None):
        return Request(lambda: self.recv(source=source, tag=tag))

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=None, recvtag=None, status=None):
        self._p(("send", dest, ("o", sendtag), pickle.dumps(sendobj, -1)))
        return self.recv(source=source, tag=recvtag)

    def Send(self, buf, dest, tag=0):
        self._p(("send", dest, ("b", tag), membytes(buf)))

    def Recv(self, buf, source=None, tag=None, status=None):
        if source is None or source < 0 or tag is None or tag < 0:
            raise NotImplementedError("wildcard receive is outside of the modelled MPI")
        fillbytes(buf, self._p(("recv", source, ("b", tag))))


def make_win(call, comm_world):
    class Win:
        def __init__(self, wid):
            self.id = wid
            self.gets = {}

        @classmethod
        def Allocate(cls, size, disp_unit=1, info=None, comm=None):
            return cls(comm_world._c("winalloc", None, None, int(size)))

        @classmethod
        def Create(cls, memory, disp_unit=1, info=None, comm=None):
            return cls(comm_world._c("winalloc", None, None, membytes(memory)))

        def _op(self, *op):
            st, val = call(op)
            if st == "err":
                raise MPIError("MPI_ERR_RMA: " + val)
            return val

        def Lock(self, rank, lock_type="exclusive", assertion=0):
            self._op("lock", self.id, int(rank), lock_type)

        def _settle(self, rank, out):
            bufs = self.gets.get(rank, [])
            for data in out or []:
                fillbytes(bufs.pop(0), data)

        def Unlock(self, rank):
            self._settle(int(rank), self._op("unlock", self.id, int(rank)))

        def Flush(self, rank):
            self._settle(int(rank), self._op("flush", self.id, int(rank)))

        Flush_local = Flush

        def Lock_all(self, assertion=0):
            for r in range(comm_world.size):
                self.Lock(r, "shared")

        def Unlock_all(self):
            for r in range(comm_world.size):
                self.Unlock(r)

        def Put(self, origin, target_rank, target=None):
            disp = target or 0
            self._op("put", self.id, int(target_rank), int(disp if isinstance(disp, int) else disp[0]), membytes(origin))

        def Get(self, origin, target_rank, target=None):
            disp = target or 0
            # the buffer must be usable now; it is filled when the operation completes
            n = len(membytes(origin))
            self.gets.setdefault(int(target_rank), []).append(origin)
            out = self._op("get", self.id, int(target_rank), int(disp if isinstance(disp, int) else disp[0]), n)
            self._settle(int(target_rank), out)

        def Fence(self, assertion=0):
            comm_world._c("fence", None, self.id)

        def Free(self):
            comm_world._c("winfree", None, self.id)

    return Win


def make_mpi(call, rank, size):
    """A module object with the names of mpi4py.MPI."""
    m = types.ModuleType("mpi4py.MPI")
    m.COMM_WORLD = Comm(call, rank, size)
    m.COMM_SELF = None
    m.Comm = Comm
    m.Win = make_win(call, m.COMM_WORLD)
    m.Wtime = time.time
    m.LOCK_SHARED, m.LOCK_EXCLUSIVE = "shared", "exclusive"
    m.ANY_SOURCE = m.ANY_TAG = -1
    m.IN_PLACE = IN_PLACE
    m.Request = Request
    m.Exception = MPIError
    m.INFO_NULL = None
    for name, op in OPS.items():
        setattr(m, name, op)
    return m


# ---------------------------------------------------------------------------------------------------------------------
# Transports
# ---------------------------------------------------------------------------------------------------------------------


def run_threads(size, mode, prefix, program):
    """program(mpi_module, rank) -> result, one thread per rank."""
    inbox = queue.SimpleQueue()
    boxes = [queue.SimpleQueue() for _ in range(size)]
    stop = object()

    def call_of(rank):
        def call(op):
            inbox.put((rank, op))
            out = boxes[rank].get()
            if out is stop:
                raise Aborted()
            return out

        return call

    def body(rank):
        try:
            res = program(make_mpi(call_of(rank), rank, size), rank)
            inbox.put((rank, ("done", res)))
        except Aborted:
            pass
        except BaseException as e:
            inbox.put((rank, ("fail", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-4)))))

    ts = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(size)]
    for t in ts:
        t.start()
    ex = drive(size, mode, prefix, inbox.get, lambda r, d: boxes[r].put(d), None)
    for b in boxes:
        b.put(stop)
    for t in ts:
        t.join(10)
    return ex


def run_processes(size, mode, prefix, program, timeout=300):
    """program(mpi_module, rank) -> picklable result, one forked process per rank."""
    from multiprocessing import Pipe
    from multiprocessing.connection import wait

    conns, pids = [], []
    for rank in range(size):
        a, b = Pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                a.close()
                for c in conns:
                    c.close()

                def call(op):
                    b.send(op)
                    return b.recv()

                try:
                    res = program(make_mpi(call, rank, size), rank)
                    b.send(("done", res))
                except BaseException as e:
                    b.send(("fail", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-5))))
            except BaseException:
                code = 1
            finally:
                os._exit(code)
        b.close()
        conns.append(a)
        pids.append(pid)
    ready = []
    end = time.time() + timeout

    def recv():
        while not ready:
            got = wait(conns_open(), max(0.0, end - time.time()))
            if not got:
                return timed_out()
            ready.extend(got)
        c = ready.pop(0)
        rank = conns.index(c)
        try:
            return rank, c.recv()
        except EOFError:
            closed.add(rank)
            return rank, ("fail", "process of the rank died")

    closed = set()
    ended = set()

    def conns_open():
        return [c for i, c in enumerate(conns) if i not in closed and i not in ended]

    def timed_out():
        i = [k for k in range(size) if k not in ended][0]
        return i, ("fail", "no progress within %d s" % timeout)

    def recv2():
        rank, msg = recv()
        if msg[0] in ("done", "fail"):
            ended.add(rank)
        return rank, msg

    def reply(r, d):
        try:
            conns[r].send(d)
        except (BrokenPipeError, OSError):
            pass

    try:
        ex = drive(size, mode, prefix, recv2, reply, None)
    finally:
        for pid in pids:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        for pid in pids:
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass
        for c in conns:
            c.close()
    return ex


def install(mpi):
    """Make `import mpi4py` give the controlled MPI (in a rank process, before vayesta is imported)."""
    pkg = types.ModuleType("mpi4py")
    pkg.rc = types.SimpleNamespace(threads=None, initialize=True)
    pkg.MPI = mpi
    pkg.__version__ = "4.0.0"
    pkg.__path__ = []
    pkg.__file__ = __file__
    mpi.__file__ = __file__
    sys.modules["mpi4py"] = pkg
    sys.modules["mpi4py.MPI"] = mpi
