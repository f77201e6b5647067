"""Independent processes of a coupled run as threads that take turns at every file operation.

Each process has its own World.  Before every file operation (open, each half of a write, close, replace, rename, remove, exists) and whenever it sleeps, a
process hands control to the scheduler, which picks the next one; the pick is a choice of the explorer, so all schedules are covered up to a bound
on the number of times a process that could go on is interrupted.  A process that sleeps without anything having changed since its last sleep is
stalled; if all are, the run hangs, which is an error.  Messages (muscle3) are blocking queues.
"""
from __future__ import annotations

import builtins
import ctypes
import os
import posixpath
import threading
import types


class Hang(Exception):
    """the processes wait for each other for ever"""
    code_error = True


class _Stop(BaseException):
    pass


class Baton:
    def __init__(self, ctx, n, interrupts):
        self.ctx, self.n, self.left = ctx, n, interrupts
        self.cond = threading.Condition()
        self.turn = None
        self.stop = False
        self.mods = 0
        self.queues = {}
        self.ids = {}

    # -- running
    def run(self, fns):
        """runs the functions as processes, returns their results"""
        n = len(fns)
        self.out, self.err = [None] * n, [None] * n
        self.done = [False] * n
        self.blocked = [None] * n           # function that says whether the process can go on
        self.slept_at = [None] * n
        self.stop = False
        self.ids = {}
        threads = [threading.Thread(target=self._body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in threads:
            t.start()
        try:
            self._schedule()
        finally:
            with self.cond:
                self.stop = True
                self.turn = None
                self.cond.notify_all()
            for t in threads:
                t.join(1.0)
                while t.is_alive():
                    ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(_Stop))
                    t.join(1.0)
            self.ctx.current_rank = None
        return self.out

    def _body(self, i, f):
        self.ids[threading.get_ident()] = i
        try:
            self._wait(i)
            self.out[i] = f()
        except _Stop:
            pass
        except BaseException as e:
            self.err[i] = e
        with self.cond:
            self.done[i] = True
            if self.turn == i:
                self.turn = None
            self.cond.notify_all()

    def _wait(self, i):
        with self.cond:
            while self.turn != i:
                if self.stop:
                    raise _Stop()
                self.cond.wait()
            if self.stop:
                raise _Stop()

    def _give(self, i):
        with self.cond:
            self.turn = i
            self.ctx.current_rank = i
            self.cond.notify_all()
            while self.turn == i:
                self.cond.wait()

    def _free(self, i):
        return not self.done[i] and (self.blocked[i] is None or self.blocked[i]())

    def _schedule(self):
        cur = None
        while True:
            if all(self.done):
                return
            free = [i for i in range(len(self.done)) if self._free(i)]
            if not free:
                raise Hang("every process waits: " + ", ".join(f"process {i}" for i in range(len(self.done)) if not self.done[i]))
            if cur in free and (len(free) == 1 or self.left <= 0):
                nxt = cur
            elif len(free) == 1:
                nxt = free[0]
            elif cur in free:
                nxt = self.ctx.choice("next", [cur] + [i for i in free if i != cur])
                if nxt != cur:
                    self.left -= 1
            else:
                nxt = self.ctx.choice("next", free) if self.left > 0 else free[0]
            cur = nxt
            self.blocked[cur] = None
            self._give(cur)
            if self.err[cur] is not None:
                raise self.err[cur]

    def me(self):
        return self.ids.get(threading.get_ident())

    def point(self, until=None):
        """a place where another process may go on"""
        i = self.me()
        if i is None:
            return
        with self.cond:
            self.blocked[i] = until
            self.turn = None
            self.cond.notify_all()
        self._wait(i)

    def changed(self):
        self.mods += 1

    def sleep(self, seconds=0):
        i = self.me()
        if i is None:
            return
        m = self.mods
        if self.slept_at[i] == m:
            self.point(lambda: self.mods != m)
        else:
            self.slept_at[i] = m
            self.point()

    # -- messages
    def put(self, ch, v):
        self.queues.setdefault(ch, []).append(v)
        self.changed()
        self.point()

    def get(self, ch):
        self.point(lambda: bool(self.queues.get(ch)))
        return self.queues[ch].pop(0)

    # -- what a process sees
    def modules(self):
        b = self
        t = types.ModuleType("time")
        import time as _time
        t.__dict__.update({k: v for k, v in _time.__dict__.items() if not k.startswith("__")})
        t.sleep = self.sleep
        o = types.ModuleType("os")
        o.__dict__.update({k: v for k, v in os.__dict__.items() if not k.startswith("__")})
        p = types.ModuleType("posixpath")
        p.__dict__.update({k: v for k, v in posixpath.__dict__.items() if not k.startswith("__")})
        o.path = p

        def look(f):
            def g(*a, **k):
                b.point()
                return f(*a, **k)
            return g

        def change(f):
            def g(*a, **k):
                b.point()
                r = f(*a, **k)
                b.changed()
                return r
            return g
        for n in ("exists", "isfile", "getsize", "getmtime"):
            setattr(p, n, look(getattr(posixpath, n)))
        for n in ("stat", "listdir", "access", "scandir"):
            setattr(o, n, look(getattr(os, n)))
        for n in ("replace", "rename", "remove", "unlink", "link"):
            setattr(o, n, change(getattr(os, n)))
        return {"time": t, "os": o, "os.path": o}

    def opener(self):
        b = self

        class File:
            def __init__(self, *a, **k):
                b.point()
                self.f = builtins.open(*a, **k)
                self.w = any(c in self.f.mode for c in "wax+")
                if self.w:
                    b.changed()

            def write(self, s):
                h = len(s) // 2
                b.point()
                self.f.write(s[:h])
                self.f.flush()
                b.changed()
                b.point()
                self.f.write(s[h:])
                self.f.flush()
                b.changed()
                return len(s)

            def writelines(self, xs):
                for x in xs:
                    self.write(x)

            def read(self, *a):
                b.point()
                return self.f.read(*a)

            def close(self):
                if not self.f.closed:
                    b.point()
                    self.f.close()

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.f.close() if a[0] is not None else self.close()

            def __iter__(self):
                b.point()
                return iter(self.f)

            def __getattr__(self, n):
                return getattr(self.f, n)
        return File
