"""A stand-in for mpi4py: the processes of one parallel run are threads of this process that take turns.

Every process has its own World (its own copy of the package).  A process runs until it reaches a collective operation, then the next one runs;
when all have arrived, the operation is carried out on their arguments.  Only one thread runs at any time, so the explorer sees one program.
Arguments that do not fit together (different operations, buffers of different length, one process finishing while others wait) are errors: a real
run would hang or crash there.
"""
from __future__ import annotations

import ctypes
import threading
import types

import numpy as _np


class MPIMisuse(Exception):
    """the processes do not agree on the collective operation"""
    code_error = True


class _Stop(BaseException):
    pass


class Cluster:
    def __init__(self, ctx, size, modules=None):
        self.ctx, self.size = ctx, size
        self.worlds = []
        self.waiting = [None] * size       # (operation, argument) of a process that has reached a collective
        self.results = [None] * size
        self.state = ["idle"] * size       # idle, running, waiting, done
        self.cond = threading.Condition()
        self.turn = None
        self.stop = False
        self.calls = 0
        self.log = []
        for r in range(size):
            self.worlds.append(ctx.world(mpi=self._module(r), modules=modules))

    # -- running
    def each(self, fn):
        """runs fn(rank, world) on every process; the results in order of rank"""
        n = self.size
        self.out, self.err = [None] * n, [None] * n
        self.waiting, self.results = [None] * n, [None] * n
        self.state = ["ready"] * n
        self.stop = False
        threads = [threading.Thread(target=self._run, args=(r, fn), daemon=True) for r in range(n)]
        for t in threads:
            t.start()
        try:
            self._schedule()
        except BaseException:
            self._end(threads)
            raise
        self._end(threads)
        for e in self.err:
            if e is not None:
                raise e
        return self.out

    def _end(self, threads):
        with self.cond:
            self.stop = True
            self.turn = None
            self.cond.notify_all()
        for t in threads:
            t.join(1.0)
            while t.is_alive():     # caught in a loop
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(_Stop))
                t.join(1.0)
        self.ctx.current_rank = None

    def _run(self, r, fn):
        try:
            self._wait_turn(r)
            self.out[r] = fn(r, self.worlds[r])
        except _Stop:
            pass
        except BaseException as e:      # handed to the scheduling thread
            self.err[r] = e
        with self.cond:
            self.state[r] = "done"
            if self.turn == r:
                self.turn = None
            self.cond.notify_all()

    def _wait_turn(self, r):
        with self.cond:
            while self.turn != r:
                if self.stop:
                    raise _Stop()
                self.cond.wait()
            if self.stop:
                raise _Stop()

    def _give(self, r):
        """lets process r run until it waits or ends"""
        with self.cond:
            self.state[r] = "running"
            self.turn = r
            self.ctx.current_rank = r
            self.cond.notify_all()
            while self.turn == r:
                self.cond.wait()

    def _schedule(self):
        while True:
            for r in range(self.size):
                if self.state[r] in ("ready",):
                    self._give(r)
                    if self.err[r] is not None:
                        raise self.err[r]
            st = set(self.state)
            if st == {"done"}:
                return
            if "done" in st:
                w = [r for r in range(self.size) if self.state[r] == "waiting"]
                raise MPIMisuse(f"processes {w} wait in {self.waiting[w[0]][0]} that the others never reach")
            self._collective()
            for r in range(self.size):
                self.state[r] = "ready"

    def _call(self, r, op, arg):
        """called by process r: takes part in a collective operation"""
        with self.cond:
            self.waiting[r] = (op, arg)
            self.state[r] = "waiting"
            self.turn = None
            self.cond.notify_all()
        self._wait_turn(r)
        return self.results[r]

    def _collective(self):
        ops = {w[0] for w in self.waiting}
        self.calls += 1
        if len(ops) > 1:
            raise MPIMisuse(f"processes in different operations: {[w[0] for w in self.waiting]}")
        op = ops.pop()
        args = [w[1] for w in self.waiting]
        self.results = getattr(self, "_op_" + op)(args)

    # -- operations
    @staticmethod
    def _reduce(op, vals):
        t = vals[0]
        for v in vals[1:]:
            t = t + v if op in (None, "SUM") else (t if t >= v else v) if op == "MAX" else (t if t <= v else v)
        return t

    def _op_Allreduce(self, args):
        sends = [list(_np.asarray(a[0]).ravel()) for a in args]
        if len({len(s) for s in sends}) > 1:
            raise MPIMisuse(f"Allreduce of buffers of different lengths {[len(s) for s in sends]}")
        if len({a[2] for a in args}) > 1:
            raise MPIMisuse("Allreduce with different operations")
        tot = [self._reduce(args[0][2], [s[i] for s in sends]) for i in range(len(sends[0]))]
        for _, recv, _ in args:
            flat = recv.reshape(-1)
            if len(flat) < len(tot):
                raise MPIMisuse("Allreduce: receive buffer too short")
            for i, v in enumerate(tot):
                flat[i] = v
        return [None] * self.size

    def _op_allreduce(self, args):
        t = self._reduce(args[0][1], [a[0] for a in args])
        return [t] * self.size

    def _op_allgather(self, args):
        return [list(args) for _ in args]

    def _op_Allgatherv(self, args):
        for send, (buf, sizes, offs) in args:
            if buf is None:
                raise MPIMisuse("Allgatherv without buffer")
        shapes = {(tuple(int(x) for x in a[1][1]), tuple(int(x) for x in a[1][2])) for a in args}
        if len(shapes) > 1:
            raise MPIMisuse(f"Allgatherv with different layouts {shapes}")
        sizes, offs = shapes.pop()
        parts = [list(_np.asarray(a[0]).ravel()) for a in args]
        for r, p in enumerate(parts):
            if len(p) != sizes[r]:
                raise MPIMisuse(f"Allgatherv: process {r} sends {len(p)} values, {sizes[r]} expected")
        for _, (buf, _, _) in args:
            for r, p in enumerate(parts):
                if offs[r] + len(p) > len(buf):
                    raise MPIMisuse("Allgatherv beyond the end of the receive buffer")
                for i, v in enumerate(p):
                    buf[offs[r] + i] = v
        return [None] * self.size

    def _op_bcast(self, args):
        roots = {a[1] for a in args}
        if len(roots) > 1:
            raise MPIMisuse("bcast from different roots")
        import copy
        v = args[roots.pop()][0]
        return [v if r == args[r][1] else copy.copy(v) for r in range(self.size)]

    def _op_Bcast(self, args):
        roots = {a[1] for a in args}
        if len(roots) > 1:
            raise MPIMisuse("Bcast from different roots")
        root = roots.pop()
        src = list(args[root][0].ravel())
        for r, (buf, _) in enumerate(args):
            if r != root:
                if buf.size != len(src):
                    raise MPIMisuse("Bcast of buffers of different lengths")
                flat = buf.reshape(-1)
                for i, v in enumerate(src):
                    flat[i] = v
        return [None] * self.size

    def _op_gather(self, args):
        root = args[0][1]
        return [[a[0] for a in args] if r == root else None for r in range(self.size)]

    def _op_reduce(self, args):
        root = args[0][2]
        t = self._reduce(args[0][1], [a[0] for a in args])
        return [t if r == root else None for r in range(self.size)]

    def _op_barrier(self, args):
        return [None] * self.size

    # -- the module seen by process r
    def _module(self, r):
        cl = self

        def buf(x, itemsize=True):
            """a buffer argument: array, [array, type], [array, count, type]"""
            if isinstance(x, (list, tuple)):
                t = x[-1]
                a = x[0]
                want = {"INT": 4, "DOUBLE": 8, "LONG": 8, "INT64_T": 8, "INT32_T": 4, "FLOAT": 4}.get(t)
                if itemsize and want and getattr(a, "dtype", None) is not None and a.dtype != object and a.dtype.itemsize != want:
                    raise MPIMisuse(f"array of {a.dtype} handed over as MPI.{t}")
                return a
            return x

        class Comm:
            rank = r
            size = cl.size

            def Get_rank(self):
                return r

            def Get_size(self):
                return cl.size

            def Allreduce(self, send, recv, op="SUM"):
                s, d = buf(send), buf(recv)
                if isinstance(s, str) and s == "IN_PLACE":
                    s = d.copy()
                if getattr(s, "dtype", None) is not None and s.dtype != object and d.dtype != object and s.dtype.itemsize != d.dtype.itemsize:
                    raise MPIMisuse(f"Allreduce from {s.dtype} to {d.dtype}")
                cl._call(r, "Allreduce", (s.copy(), d, op))

            def allreduce(self, v, op="SUM"):
                return cl._call(r, "allreduce", (v, op))

            def allgather(self, v):
                return cl._call(r, "allgather", v)

            def Allgather(self, send, recv):
                s, d = buf(send), buf(recv)
                n = len(s)
                cl._call(r, "Allgatherv", (s.copy(), (d, [n] * cl.size, [n * i for i in range(cl.size)])))

            def Allgatherv(self, send, recv):
                s = buf(send)
                b = recv[0]
                if len(recv) >= 3 and not isinstance(recv[1], str):
                    if isinstance(recv[1], (tuple, list)) and len(recv[1]) == 2 and hasattr(recv[1][0], "__len__"):
                        sizes, offs = recv[1]
                    elif len(recv) >= 4:
                        sizes, offs = recv[1], recv[2]
                    else:
                        sizes = recv[1]
                        offs = [sum(int(x) for x in list(sizes)[:i]) for i in range(len(sizes))]
                else:
                    raise MPIMisuse("Allgatherv without sizes")
                cl._call(r, "Allgatherv", (s.copy(), (b, list(sizes), list(offs))))

            def bcast(self, v, root=0):
                return cl._call(r, "bcast", (v, root))

            def Bcast(self, v, root=0):
                cl._call(r, "Bcast", (buf(v), root))

            def gather(self, v, root=0):
                return cl._call(r, "gather", (v, root))

            def reduce(self, v, op="SUM", root=0):
                return cl._call(r, "reduce", (v, op, root))

            def barrier(self):
                cl._call(r, "barrier", None)

            Barrier = barrier

        m = types.ModuleType("mpi4py.MPI")
        m.COMM_WORLD = Comm()
        m.Comm = Comm
        for n in ("SUM", "MAX", "MIN", "INT", "DOUBLE", "LONG", "FLOAT", "INT64_T", "INT32_T", "IN_PLACE"):
            setattr(m, n, n)
        m.Is_initialized = lambda: True
        m.Is_finalized = lambda: False
        m.Init = lambda: None
        m.Finalize = lambda: None
        m.Wtime = lambda: 0.0
        return m
