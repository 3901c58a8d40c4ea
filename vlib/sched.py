"""Deterministic scheduler for party threads.

Exactly one thread runs at a time; it hands control back at every synchronisation
operation (queue put/get, barrier, lock, ...) and, if asked, at every line of the
module under test.  Which thread goes on next is decided by a schedule (a list of
thread numbers, used as long as it lasts) and then by a seeded random choice.
A state in which nobody can go on is a dead-lock."""
import queue as rq, random, sys, threading as rt


class Deadlock(Exception):
    pass


class Abort(BaseException):
    pass


class Sched:
    def __init__(self, n, schedule=(), seed=0, lines=None, line_prob=0.3, wall=20):
        self.n, self.schedule, self.rng = n, list(schedule), random.Random(seed)
        self.sem = [rt.Semaphore(0) for _ in range(n)]
        self.main = rt.Semaphore(0)
        self.pred = [lambda: True] * n      # condition under which thread i can go on
        self.done = [False] * n
        self.err = [None] * n
        self.tls = rt.local()
        self.lines, self.line_prob, self.wall = lines, line_prob, wall
        self.steps, self.dead, self.abort = 0, None, False
        self.uncontrolled = False

    def me(self):
        return getattr(self.tls, "i", None)

    def yield_(self, pred=None):
        i = self.me()
        if i is None:                       # a thread we do not control
            return
        self.pred[i] = pred or (lambda: True)
        self.main.release()
        self.sem[i].acquire()
        if self.abort:
            raise Abort()
        self.pred[i] = lambda: True

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.endswith(self.lines):
            return None
        def local(frame, event, arg):
            if event == "line" and self.rng.random() < self.line_prob:
                self.yield_()
            return local
        return local

    def run(self, bodies):
        def wrap(i):
            self.tls.i = i
            self.sem[i].acquire()
            try:
                if self.abort:
                    return
                if self.lines:
                    sys.settrace(self._trace)
                bodies[i]()
            except Abort:
                pass
            except BaseException as e:
                self.err[i] = "%s: %s" % (type(e).__name__, str(e)[:200])
            finally:
                sys.settrace(None)
                self.done[i] = True
                self.main.release()
        ths = [rt.Thread(target=wrap, args=(i,), daemon=True) for i in range(self.n)]
        for t in ths:
            t.start()
        last = 0
        while True:
            ready = [i for i in range(self.n) if not self.done[i] and self.pred[i]()]
            if not ready or any(self.err) or self.steps > 200000:
                if not ready and not all(self.done):
                    self.dead = [i for i in range(self.n) if not self.done[i]]
                break
            nxt = None
            while self.schedule and nxt is None:
                q = self.schedule.pop(0)
                nxt = q if q in ready else None
            if nxt is None:
                nxt = last if last in ready and self.rng.random() < .5 else self.rng.choice(ready)
            last = nxt
            self.steps += 1
            self.sem[nxt].release()
            if not self.main.acquire(timeout=self.wall):
                self.uncontrolled = True    # blocked in something we do not know
                break
        if self.dead or any(self.err):
            self.abort = True
            for i in range(self.n):
                if not self.done[i]:
                    self.sem[i].release()
        if not self.uncontrolled:
            for t in ths:
                t.join(5)

    # ------------------------------------------------ controlled primitives
    def shims(self):
        S = self

        class Lock:
            def __init__(self): self.owner = None; self.n = 0
            def acquire(self, blocking=True, timeout=-1):
                if not blocking and self.owner is not None: return False
                S.yield_(lambda: self.owner is None)
                self.owner = S.me(); return True
            def release(self): self.owner = None
            def locked(self): return self.owner is not None
            __enter__ = acquire
            def __exit__(self, *a): self.release()

        class RLock(Lock):
            def acquire(self, blocking=True, timeout=-1):
                if self.owner == S.me() and self.n:
                    self.n += 1; return True
                S.yield_(lambda: self.n == 0)
                self.owner, self.n = S.me(), 1; return True
            def release(self):
                self.n -= 1
                if not self.n: self.owner = None
            __enter__ = acquire

        class Condition:
            def __init__(self, lock=None):
                self.l = lock or RLock(); self.w = []
                self.acquire, self.release = self.l.acquire, self.l.release
            def __enter__(self): return self.l.acquire()
            def __exit__(self, *a): self.l.release()
            def wait(self, timeout=None):
                tok = [False]; self.w.append(tok)
                n = getattr(self.l, "n", 0); self.l.owner = None; self.l.n = 0
                S.yield_(lambda: tok[0] and self.l.owner is None)
                self.l.owner = S.me(); self.l.n = n
                return True
            def wait_for(self, p, timeout=None):
                while not p(): self.wait()
                return True
            def notify(self, n=1):
                for t in self.w[:n]: t[0] = True
                del self.w[:n]
            def notify_all(self): self.notify(len(self.w))

        class Event:
            def __init__(self): self.f = False
            def is_set(self): return self.f
            def set(self): S.yield_(); self.f = True
            def clear(self): self.f = False
            def wait(self, timeout=None): S.yield_(lambda: self.f); return True

        class Semaphore:
            def __init__(self, value=1): self.v = value
            def acquire(self, blocking=True, timeout=None): S.yield_(lambda: self.v > 0); self.v -= 1; return True
            def release(self, n=1): self.v += n
            __enter__ = acquire
            def __exit__(self, *a): self.release()

        class Barrier:
            def __init__(self, parties, action=None, timeout=None): self.parties, self.c, self.out, self.action = parties, 0, 0, action
            def wait(self, timeout=None):
                S.yield_(lambda: self.out == 0)
                k = self.c; self.c += 1
                if self.c == self.parties:
                    if self.action: self.action()
                    self.c, self.out = 0, self.parties
                S.yield_(lambda: self.out > 0)
                self.out -= 1
                return k
            def reset(self): self.c = self.out = 0
            def abort(self): pass
            @property
            def n_waiting(self): return self.c

        class Queue:
            def __init__(self, maxsize=0): self.q, self.m = [], maxsize
            def put(self, x, block=True, timeout=None):
                S.yield_((lambda: len(self.q) < self.m) if self.m else None); self.q.append(x)
            def put_nowait(self, x): self.put(x)
            def get(self, block=True, timeout=None):
                if not block or timeout is not None:
                    S.yield_()
                    if not self.q: raise rq.Empty()
                else:
                    S.yield_(lambda: len(self.q) > 0)
                return self.q.pop(0)
            def get_nowait(self): return self.get(False)
            def qsize(self): return len(self.q)
            def empty(self): return not self.q
            def full(self): return bool(self.m) and len(self.q) >= self.m
            def task_done(self): pass

        class Mod: pass
        th = Mod(); qm = Mod()
        th.__dict__.update({k: v for k, v in vars(rt).items() if not k.startswith("__")})
        qm.__dict__.update({k: v for k, v in vars(rq).items() if not k.startswith("__")})
        repl = {rt.Lock: Lock, rt.RLock: RLock, rt.Condition: Condition, rt.Event: Event, rt.Semaphore: Semaphore, rt.BoundedSemaphore: Semaphore,
                rt.Barrier: Barrier, rq.Queue: Queue, rq.SimpleQueue: Queue}
        for m in (th, qm):
            for k, v in list(vars(m).items()):
                try:
                    if v in repl: setattr(m, k, repl[v])
                except TypeError:
                    pass
        self.Lock, self.RLock = Lock, RLock
        return th, qm, repl

    def patch(self, mods):
        """replace the synchronisation primitives a module refers to"""
        th, qm, repl = self.shims()
        saved = []
        lt, rlt = type(rt.Lock()), type(rt.RLock())
        def sub(v):
            if v is rt: return th
            if v is rq: return qm
            try:
                if v in repl: return repl[v]
            except TypeError:
                pass
            if type(v) is lt: return self.Lock()
            if type(v) is rlt: return self.RLock()
            return None
        for m in mods:
            holders = [m] + [c for c in vars(m).values() if isinstance(c, type) and c.__module__ == m.__name__]
            for h in holders:
                for k, v in list(vars(h).items()):
                    if k.startswith("__"): continue
                    w = sub(v)
                    if w is not None:
                        saved.append((h, k, v)); setattr(h, k, w)
        return saved

    @staticmethod
    def unpatch(saved):
        for h, k, v in saved:
            setattr(h, k, v)
